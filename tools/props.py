#!/usr/bin/env python3
"""
The single source of properties.jsonl and MANIFEST.json:

    python3 tools/props.py        rewrites both, from the table below and
                                  the check modules that exist
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note,
         observe=(), state=(), technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, note=note,
                  observe=observe, state=state, technique=technique))


CHOICE = ("stateless exhaustive exploration of the real code "
          "(every choice sequence of closed harnesses, deviation-bounded) "
          "against a reference model, step by step")

prop("C01", "Class files are unpacked faithfully",
     "For every well-formed class file (format versions 1.0 to 17), the unpacked class reports exactly what the file contains: version, flags, this/super/interfaces, every field and method with its modifiers, types and attributes, and every class, member and code attribute it offers an accessor for, in file order. Accessors give the same answer when asked repeatedly and in any order, and attributes the library has no accessor for are kept as raw bytes and disturb nothing else.",
     ["inputs", "programs"],
     "all class files over an alphabet of members, flags, attributes and constant pool layouts: every attribute alone, every pair, every order, every flag bit",
     "tests unpack a dozen javac outputs; they cannot reach each attribute combination, pool order, flag bit or hand-made layout",
     ["javatools/__init__.py"],
     [("JavaClassInfo.unpack, JavaMemberInfo.unpack, JavaAttributes.unpack", "javatools/__init__.py"),
      ("lazily decoded, memoised accessors get_*", "javatools/__init__.py")],
     "Class files are generated by an independent encoder (validated against javap); bounded to at most two members of a kind and two departures from the base class per execution.",
     ["is_class_file", "unpack_class", "JavaClassInfo accessors"])

prop("C02", "Constant pool entries are decoded and dereferenced correctly",
     "Every constant of every tag is decoded to the value the JVM specification assigns to its bytes (modified UTF-8, signed 32/64-bit integers, IEEE floats including NaN payload-insensitive equality, infinities and signed zero), and dereferencing follows references to the entry with that index, long and double entries occupying two indexes. This holds for every position of the entry in the pool, and the printed form names what the constant refers to.",
     ["inputs"],
     "all tags x boundary values x positions (before/after two-slot entries, forward and backward references)",
     "the sample classes contain few tags, few values, and only javac's pool layout",
     ["javatools/__init__.py"],
     [("JavaConstantPool.unpack / get_const / deref_const / pretty_const", "javatools/__init__.py"),
      ("_unpack_const_item, _decode_utf", "javatools/__init__.py")],
     "Reference decoding by an independent encoder; bounded to pools with one to three constants of interest and padding entries.",
     ["JavaConstantPool accessors"])

prop("C03", "Damaged class data is rejected, never misread",
     "A class file cut short at any byte, or whose magic number, constant tag or attribute length is wrong, is rejected with the library's own unpack/class-format exceptions; no call hangs, crashes or returns a class with made-up content. The test for being a class file answers exactly by the four magic bytes and leaves the stream usable.",
     ["inputs", "fault_sequences"],
     "every truncation point of a set of class files covering all structures; every value of the damaged byte at structural positions",
     "tests only feed intact class files",
     ["javatools/__init__.py", "javatools/pack.py"],
     [("UnpackException on short data", "javatools/pack.py"), ("ClassUnpackException, Unimplemented", "javatools/__init__.py"), ("is_class", "javatools/__init__.py")],
     "Every truncation point of each listed file and every replacement byte at each structural position; each from several input kinds.",
     ["unpack_class", "is_class", "is_class_file"])

prop("C04", "Unpacking gives the same result from any kind of input",
     "Reading a sequence of structs, arrays and raw bytes gives the same values, consumes the same bytes and fails at the same place whether the input is bytes, a memory view, or a stream that delivers any non-zero number of bytes per read. Unpacking a class from bytes, buffer or stream gives equal classes.",
     ["inputs", "schedules", "fault_sequences"],
     "all operation sequences up to the depth bound x all input kinds x all short-read patterns",
     "tests read from complete in-memory buffers only; short reads depend on the environment",
     ["javatools/pack.py", "javatools/__init__.py"],
     [("BufferUnpacker, StreamUnpacker, unpack()", "javatools/pack.py")],
     "Short reads are chosen by the explorer at every read; bounded depth of operation sequences and at most the stated number of short reads.",
     ["Unpacker.unpack / unpack_array / unpack_struct / unpack_objects / read"])

prop("C05", "Bytecode is disassembled instruction by instruction",
     "For every opcode, including wide forms, table/lookup switches at every alignment and branch offsets at their limits, disassembly reports the right offset, mnemonic and signed operands, and the instruction boundaries cover the code exactly. Code that ends inside an instruction or contains an undefined opcode is not silently accepted as something else.",
     ["programs", "inputs"],
     "every opcode x boundary operand values x preceding instructions up to a sequence length x switch sizes and alignments",
     "sample methods use a fraction of the opcodes, few operand values and one alignment",
     ["javatools/opcodes.py", "javatools/__init__.py"],
     [("disassemble, _unpack* operand readers, opcode registry", "javatools/opcodes.py"), ("JavaCodeInfo.disassemble, get_line...", "javatools/__init__.py")],
     "Independent opcode table (validated against javap); sequences up to three instructions.",
     ["disassemble", "get_opname_by_code", "has_const_arg"])

prop("C06", "Type descriptors are read and printed correctly",
     "Every field and method descriptor, with any nesting of arrays, objects and primitives, is split and printed as the Java types it denotes, and the printed descriptor of fields, methods and classes shows modifiers, types, name, arguments and exceptions in Java order.",
     ["inputs"],
     "all descriptors over an alphabet of base types and array depths up to a length bound; all member modifier combinations",
     "tests only see the descriptors of the sample classes",
     ["javatools/__init__.py"],
     [("_next_argsig, _typeseq, _pretty_type, _pretty_class", "javatools/__init__.py"), ("pretty_descriptor, pretty_arg_types", "javatools/__init__.py")],
     "All descriptors up to the stated number of arguments over 11 types x array depth; oracle is an independent parser.",
     ["get_type_descriptor", "get_arg_type_descriptors", "pretty_*"])

prop("C07", "Member lookup finds exactly the members asked for",
     "Looking up fields, methods and bridges by name, name and argument types, or identifier finds exactly the members of the class that match, for every combination of overloads, constructors and bridge methods, independent of their order in the file; member identifiers are equal exactly for the same member.",
     ["inputs", "programs"],
     "all small sets and orders of overloads, bridges and fields",
     "sample classes have few overloads and one member order",
     ["javatools/__init__.py"],
     [("get_methods_by_name, get_method, get_method_bridges, get_identifier", "javatools/__init__.py")],
     "Bounded to classes with up to four methods; two members that only differ in return type where neither is a bridge are outside the domain.",
     ["JavaClassInfo.get_method*", "get_field_by_name"])

prop("C08", "Line number tables map code to source lines",
     "The line for a code offset is the line of the last table entry at or before it, for every table; absolute and relative tables and per-line code regions agree with that mapping, and two bodies that differ only by a shift of all lines have equal relative tables.",
     ["inputs"],
     "all line tables up to a number of entries over small offsets and lines, including repeated and decreasing lines",
     "javac's tables for the samples are few and regular",
     ["javatools/__init__.py"],
     [("get_linenumbertable, get_relativelinenumbertable, get_line_for_offset, iter_code_by_lines", "javatools/__init__.py")],
     "Tables with strictly increasing offsets, up to the stated number of entries.",
     ["JavaCodeInfo"])

prop("C09", "Annotations are decoded and compared by meaning",
     "Annotations, parameter annotations and annotation defaults, with every element type and nesting, are decoded to the values in the file, visible and invisible ones kept apart. Two annotations are equal exactly when they have the same type and the same element names and values, wherever their constants sit in the constant pool.",
     ["inputs", "programs"],
     "all element values up to a nesting bound; all pairs of a value set under different pool layouts",
     "the sample classes hold a handful of annotations and one layout",
     ["javatools/__init__.py"],
     [("JavaAnnotation, _unpack_annotations, _unpack_anno_value, deref_*", "javatools/__init__.py")],
     "Nesting up to depth 2, all 13 element tags, all ordered pairs of the value set.",
     ["get_annotations", "get_invisible_annotations", "get_parameterannotations", "get_annotationdefault"])

prop("C10", "A class's provides and requires are complete and exact",
     "What a class provides is its own name and every public member with its type and argument list (every member, when private ones are asked for), and what it requires is every class, field and method its constant pool refers to - from code, exceptions, super types or constants, an array class counting as its element class - minus what it provides itself, private members included; ignore patterns remove exactly the matching entries.",
     ["inputs", "programs"],
     "all visibility/kind combinations of members; every way of referring to another class; every ignore pattern of an alphabet",
     "tests compare two sample classes",
     ["javatools/__init__.py"],
     [("JavaClassInfo.get_provides / get_requires, _add_class_requires...", "javatools/__init__.py")],
     "The documented definition is computed by an independent reference on the generated class; member and reference kinds bounded to combinations of two.",
     ["get_provides", "get_requires"])

prop("C11", "Jar and distribution dependencies are the union of their classes'",
     "A jar's or distribution's provides are the union of those of the classes in it (and in its jars), its requires are the union of theirs minus what it provides itself, and the reverse mappings name exactly the entries each provider or dependency comes from. The answer is the same for a packed and an exploded archive.",
     ["inputs", "configurations"],
     "all small sets of classes with mutual references distributed over jars and directories, packed or exploded",
     "tests use one jar and one distribution",
     ["javatools/jarinfo.py", "javatools/distinfo.py"],
     [("JarInfo.collect_requires_provides", "javatools/jarinfo.py"), ("DistInfo.get_requires/get_provides, _collect_requires_provides", "javatools/distinfo.py")],
     "Up to three classes over two jars and a directory; oracle is the union of an independent reference.",
     ["JarInfo.get_provides/get_requires", "DistInfo.get_provides/get_requires"])

prop("C12", "Comparing a class with itself or a recompiled copy reports nothing",
     "Comparing a class to itself reports no change at all, and a class whose constant pool was merely laid out differently shows, with the constant pool ignored, no change either. This holds for every class content.",
     ["inputs", "programs"],
     "all generated classes x all pool permutations of a set of layouts",
     "tests compare a few javac outputs; pool order and unusual constants never vary",
     ["javatools/classdiff.py", "javatools/__init__.py"],
     [("JavaClassChange and its sub-changes", "javatools/classdiff.py"), ("__eq__ of class model objects", "javatools/__init__.py")],
     "Permuted layouts keep opcodes (ldc vs ldc_w) and the bootstrap method table.",
     ["JavaClassChange", "cli_classes_diff"])

prop("C13", "Every difference between two classes is reported under its category",
     "A difference in version, flags, names, super type, set of interfaces, generic signature, deprecation, annotations, fields, methods, exceptions, constant values, code, exception tables, line numbers or constant pool makes the comparison report a change, in the category it belongs to and in no unrelated one. Swapping the two classes turns additions into removals and changes nothing else about the verdict.",
     ["inputs", "programs"],
     "all single and pairwise edits of an edit alphabet over base classes",
     "tests check one changed class; they cannot enumerate each kind of difference",
     ["javatools/classdiff.py", "javatools/change.py"],
     [("Class*Change, Field*Change, Method*Change, Code*Change", "javatools/classdiff.py")],
     "All single edits and pairs of edits from the stated alphabet; nested details of generic changes compared through the change tree.",
     ["JavaClassChange.collect", "is_change", "get_subchanges"])

prop("C14", "Ignore options hide exactly their category",
     "Each ignore option makes differences of its category, and only those, not count: the comparison's exit status is zero exactly when every difference present is covered by an option given. Composite options equal the options they stand for.",
     ["inputs", "configurations"],
     "all pairs (difference set, option set) over the edit alphabet and all class, jar and manifest ignore options",
     "tests run with a single option set",
     ["javatools/classdiff.py", "javatools/jardiff.py", "javatools/distdiff.py", "javatools/manifest.py", "javatools/change.py"],
     [("is_ignored of each change type", "javatools/classdiff.py"), ("options and composites", "javatools/classdiff.py")],
     "All edits x all options plus all edit pairs x option pairs.",
     ["cli_classes_diff", "cli_jars_diff", "exit status"])

prop("C15", "Jar comparison accounts for every entry exactly once",
     "Comparing two archives yields for every file entry of either side exactly one event, saying left only, right only, same or different by content, whatever mixture of packed archive and exploded directory is compared. The jar difference reports added, removed and changed classes, contents and manifests accordingly and its exit status is zero exactly if nothing is reported as changed.",
     ["inputs", "configurations"],
     "all pairs of small trees over a name/content alphabet x packed/exploded on each side",
     "tests compare one pair of jars",
     ["javatools/ziputils.py", "javatools/jardiff.py", "javatools/change.py"],
     [("compare, compare_zips", "javatools/ziputils.py"), ("JarContentsChange.collect_impl", "javatools/jardiff.py")],
     "All pairs of trees over four names and three contents, four storage combinations.",
     ["ziputils.compare", "JarChange", "jardiff exit status"])

prop("C16", "Directory comparison accounts for every file exactly once",
     "Comparing two directory trees yields for every file of either side exactly one event with its relative path: left only, right only, same, or different by content, including files below directories that exist on one side only, and names that are a file on one side and a directory on the other.",
     ["inputs", "configurations"],
     "all pairs of small trees over a name/content alphabet, with equal and different sizes and time stamps",
     "tests compare one pair of directories; equal-size equal-time files never occur",
     ["javatools/dirutils.py"],
     [("compare, _gen_from_dircmp", "javatools/dirutils.py")],
     "All pairs of trees of the stated alphabet (depth 2).",
     ["dirutils.compare", "distdiff"])

prop("C17", "Distribution comparison classifies every file and finds every change",
     "Comparing two distributions reports for each file the kind of change that fits it (class, jar, manifest, text, other) and reports it as changed exactly if its content differs in a way the options do not ignore, so that the exit status is zero exactly for equal distributions. Ignore patterns for file names remove exactly the matching files; the shallow mode reports exactly the files whose bytes differ or that are on one side only.",
     ["inputs", "configurations"],
     "all pairs of small distributions over file kinds x contents x options",
     "tests compare one pair of distributions",
     ["javatools/distdiff.py", "javatools/dirutils.py"],
     [("DistChange.collect_impl, Dist*Change.check", "javatools/distdiff.py")],
     "All pairs over the stated files and contents; options one or two at a time.",
     ["DistChange", "distdiff exit status"])

prop("C18", "A change tree's verdict follows from its leaves",
     "A composite change is a change exactly if one of its parts is, and is ignored exactly if it is a change and each of its changed parts is ignored; its parts are collected once and the answers stay the same whenever and however often they are asked for. Squashing and simplifying preserve label, description, verdict, kind and ignored state, simplifying lists exactly the parts the options ask to show, and grouping changes by type keeps each exactly once.",
     ["histories", "inputs"],
     "all change trees up to a depth and width, all orders of check, query, squash, simplify and clear",
     "tests only look at finished trees of a few inputs",
     ["javatools/change.py"],
     [("Change, GenericChange, SuperChange, squash, collect_by_typename", "javatools/change.py")],
     "All trees up to depth 2 or 3 and width 2 or 3 (see evidence) with all leaf states; operation sequences up to depth 3 (quick) or 5.",
     ["Change.is_change", "is_ignored", "get_subchanges", "simplify", "squash"])

prop("C19", "Parallel distribution comparison equals sequential under any schedule",
     "Checking a distribution with any number of worker processes gives the same verdict, the same changes in the same order and the same reports as checking it sequentially, whatever the relative speed of the workers. It ends after every entry was checked, also when checking an entry raises an error in a worker.",
     ["schedules", "fault_sequences"],
     "all interleavings of workers and parent at queue operations, 1-3 workers, up to four work items, with and without a failing item",
     "the tests run whatever schedule the operating system picks, and no failures",
     ["javatools/distdiff.py"],
     [("mp_check_impl, _mp_squash_wrapper", "javatools/distdiff.py"), ("Queue/Process hand-off", "javatools/distdiff.py")],
     "All interleavings at queue operations under a cooperative scheduler that replaces process and queue primitives.",
     ["DistReport.check", "DistChange.mp_check"])

prop("C20", "Reports contain exactly what the comparison found",
     "The text and JSON report of a comparison show every change that the options ask to show with its label and description, and none that they hide; JSON output is well-formed and mirrors the change tree. The HTML report shows every difference with both sides' values, marks what is unchanged or ignored, is well-formed with all text that comes from the files escaped, and links the sub-report of every changed class and archive to a file that exists. All files of a report stay below the directories given for it, whatever the entries are named.",
     ["inputs", "configurations"],
     "all change trees from the edit alphabet x report formats x visibility options; all special characters in file-derived text",
     "tests check that some reports are produced, not what is in them",
     ["javatools/report.py", "javatools/change.py", "javatools/classdiff.py", "javatools/jardiff.py", "javatools/distdiff.py", "javatools/cheetah"],
     [("JSONReportFormat, TextReportFormat, CheetahReportFormat", "javatools/report.py"), ("simplify", "javatools/change.py"), ("templates", "javatools/cheetah/*.tmpl")],
     "Reports are parsed back and compared with an independent rendering of the change tree.",
     ["report files", "standard output"])

prop("C21", "Manifests survive writing and reading",
     "Writing a manifest and reading it back yields the same main attributes and sections with the same names and values, for every value including those long or multi-byte enough to be continued over lines; no written line is longer than 72 bytes without its line end, and keys and values the format cannot hold are refused.",
     ["inputs", "histories"],
     "all value lengths around every continuation boundary x character widths x line separators; all sequences of section operations",
     "tests round-trip a few short values",
     ["javatools/manifest.py"],
     [("write_key_val, Manifest.store, parse", "javatools/manifest.py")],
     "All value lengths 0..300 with multi-byte characters at every position around boundaries.",
     ["Manifest.get_data", "Manifest.parse"])

prop("C22", "Manifests are parsed as the JAR specification says",
     "For every manifest text, with any of the permitted line ends, continuations split anywhere (also inside a multi-byte character), blank lines and section order, parsing yields the main attributes and named sections the specification defines, and malformed text (a line without colon, a colon not followed by a space, a continuation line with nothing to continue) is refused with the library's own exception.",
     ["inputs"],
     "all texts over a line alphabet up to a number of lines",
     "tests parse a few well-formed manifests",
     ["javatools/manifest.py"],
     [("parse_sections, Manifest.parse, detect_linesep", "javatools/manifest.py")],
     "All line sequences up to the bound against an independent parser on bytes.",
     ["Manifest.parse"])

prop("C23", "Manifest create, query and verify agree with the archive's content",
     "A manifest created for an archive or directory lists every file not ignored with the right digests, verification of an archive accepts it exactly if every entry that needs one has a matching digest, and querying prints the values stored. Any change of an entry's content or digest, and any added entry, makes verification fail and name the entry. Verifying does not change the manifest.",
     ["inputs", "histories", "configurations"],
     "all small archives x digest sets x single edits",
     "tests verify a few fixed jars",
     ["javatools/manifest.py"],
     [("cli_create, cli_verify, cli_query, verify_jar_checksums, add_jar_entries", "javatools/manifest.py")],
     "Archives up to three entries; edits: content, digest value, digest name, added, removed, renamed entry.",
     ["manifest c/q/v", "verify_jar_checksums"])

prop("C24", "A signed jar verifies, for every key type, digest and layout",
     "After signing, verification with the signer's certificate succeeds, for RSA, DSA and EC keys, every supported digest, with or without chain certificates, and any manifest content, entry set or line ends; verification with a certificate that neither is nor issued the signer's fails (a certificate issued by others is verified with the root of its chain). The digests in the signature file are those of the manifest as stored in the jar, as the JAR specification defines them.",
     ["inputs", "configurations"],
     "all combinations of key type, digest, chain, manifest layout, entry set",
     "tests sign a few fixed jars with one or two keys",
     ["javatools/jarutil.py", "javatools/crypto.py", "javatools/manifest.py"],
     [("sign, verify", "javatools/jarutil.py"), ("create_signature_block, verify_signature_block, private_key_type", "javatools/crypto.py"), ("digest_manifest", "javatools/manifest.py")],
     "Keys and certificates are fixtures of the framework; digests are recomputed from the raw bytes of the stored manifest.",
     ["jarutil.sign", "jarutil.verify"])

prop("C25", "Verification detects every tampering with a signed jar",
     "After signing, any modification of an entry's content, of what the manifest says, of the signature file, or of the certificate or signature in the signature block, and any added or duplicated entry, makes verification fail with the library's verification error naming the failed step, never succeed and never raise anything else. The command line exits non-zero with a message. Removed entries are tolerated, as documented.",
     ["inputs", "fault_sequences"],
     "all single tamper operations (every byte position class, every entry, every digest) and pairs, on signed jars of every key type",
     "tests hold a handful of pre-made tampered jars",
     ["javatools/jarutil.py", "javatools/crypto.py", "javatools/manifest.py"],
     [("verify, verify_manifest, verify_jar_checksums, verify_signature_block", "javatools/manifest.py")],
     "Every line/byte of manifest and signature file, every bit position class of the block; deletion of entries is tolerated by design.",
     ["jarutil.verify", "jarutil v exit status"])

prop("C26", "Signing preserves the archive and fails without damage",
     "Signing keeps every entry's name and content and adds only the manifest digests, the signature file and the signature block at the front; with an output file given the input is left unchanged. If signing is refused, fails or is interrupted at any step, the file to be written is as it was or, once everything is done, completely signed, never anything between, and the input is unchanged; nothing else is left behind by a failure.",
     ["inputs", "crash_points", "fault_sequences"],
     "all small archives; a failure injected at every file operation of the signing procedure",
     "tests never fail a step and look at the result by verifying it only",
     ["javatools/jarutil.py"],
     [("sign: temporary jar, then copy", "javatools/jarutil.py")],
     "Faults are injected at every write/open/copy operation reached during signing.",
     ["file system after sign()"])

prop("C27", "A created jar contains exactly what was asked for",
     "A jar created from files and directories contains a well-formed manifest and each named file and everything below each named directory exactly once, with its content, and can be read by the library and by other tools; a main class given on the command line is recorded.",
     ["inputs", "configurations"],
     "all small directory trees and argument lists, nested and empty directories",
     "tests create one jar",
     ["javatools/jarutil.py"],
     [("create_jar, cli_create_jar", "javatools/jarutil.py")],
     "All trees over the stated alphabet, argument lists up to three.",
     ["jarutil c"])

prop("C28", "Signing histories keep every valid signature verifiable",
     "After any sequence of signing, re-signing and adding entries followed by signing, the last signature made under each alias verifies with its certificate exactly as long as no entry and no manifest section it covers was changed and none was added since, and the jar contains one signature file and block per alias. Manifest attributes other than digests that were in the jar before are preserved.",
     ["histories"],
     "all operation sequences up to the depth bound over two signers, digests and edits",
     "tests sign once",
     ["javatools/jarutil.py", "javatools/manifest.py"],
     [("sign", "javatools/jarutil.py"), ("add_jar_entries, digest_manifest", "javatools/manifest.py")],
     "All histories up to the stated depth over two aliases of different key types.",
     ["jarutil.sign", "jarutil.verify"])

prop("C29", "An exploded archive behaves like the archive itself",
     "An exploded directory opened as an archive lists the same names, reads the same contents and gives the same entry information as the archive it was exploded from, and whether something is an archive is answered by its content alone for paths, bytes and streams. The size roll-up adds up files and sizes exactly.",
     ["inputs", "configurations"],
     "all small trees x access operations; all archive prefixes/truncations for detection",
     "tests open one directory",
     ["javatools/ziputils.py"],
     [("ExplodedZipFile, open_zip, is_zipstream, zip_entry_rollup, collect_infos", "javatools/ziputils.py")],
     "All trees over the stated alphabet; every stream kind and truncation for detection.",
     ["open_zip", "is_zipstream", "zip_file_rollup"])

prop("C30", "Directory helpers copy and match faithfully",
     "Copying a directory tree reproduces every file at the same relative path with the same content, making needed directories and leaving other files alone; name matching accepts a path exactly if one of the patterns matches it; what is closed at the end of a block is closed exactly once whatever happened in it.",
     ["inputs", "configurations"],
     "all small trees, all pattern/path pairs of an alphabet",
     "no test copies a nested tree",
     ["javatools/dirutils.py"],
     [("copydir, makedirsp, fnmatches, closing", "javatools/dirutils.py")],
     "All trees of the alphabet up to depth 3.",
     ["file system after the call"])

prop("C31", "The info commands show what the file contains",
     "The class, jar and distribution info commands print, for every option, what the file contains - names, versions, flags, members at the visibility asked for, provides and requires, code and constants - and their JSON output is well-formed and carries the same facts for the options it supports.",
     ["inputs", "configurations"],
     "all generated classes and jars x all options alone and in pairs",
     "tests run a few option sets on sample files and only check that they finish",
     ["javatools/classinfo.py", "javatools/jarinfo.py", "javatools/distinfo.py"],
     [("cli_class_info, cli_print_classinfo, cli_simplify_*", "javatools/classinfo.py"), ("cli_jar_info", "javatools/jarinfo.py"), ("cli_dist_info", "javatools/distinfo.py")],
     "Output is parsed back line by line and compared with the generated content.",
     ["standard output of classinfo, jarinfo, distinfo"])

prop("C32", "Output that could not be written is reported",
     "Whenever an operation on the output of a command fails - creating, writing, truncating, closing or linking a file or making a directory, for report files, copied media, manifests, created jars and standard output, by an error or a full disk - the command does not end as if it had succeeded: it ends with an error, or all of its output is complete. The inputs are never changed.",
     ["fault_sequences", "configurations"],
     "every operation on the output of every command x error, full disk, short write",
     "tests never let writing fail",
     ["javatools/report.py", "javatools/manifest.py", "javatools/jarutil.py", "javatools/dirutils.py", "javatools/classinfo.py", "javatools/jarinfo.py", "javatools/distinfo.py"],
     [("ReportFormat.run, quick_report, CheetahReportFormat.setup", "javatools/report.py"), ("cli_create", "javatools/manifest.py"), ("create_jar", "javatools/jarutil.py"), ("copydir, makedirsp", "javatools/dirutils.py")],
     "A preloaded library makes each operation on the output fail in turn; one failure per execution.",
     ["exit status", "output files", "standard output"])

prop("C33", "Input that cannot be read is never taken for something else",
     "If opening, reading or listing any part of the input fails, once or from then on, or the content of an archive entry that a command reads is damaged, the command or call ends with an error; it never reports the input as equal, different, empty, absent, verified or otherwise described as if it had been read. After a failure the same object asked again gives an error or the right answer, never one made up of what had been read before.",
     ["fault_sequences", "histories", "inputs"],
     "every opening, reading and listing of every command and comparison failing, transiently and permanently; every byte of an archive's entries damaged; histories of calls across a failure",
     "tests never let reading fail",
     ["javatools/dirutils.py", "javatools/ziputils.py", "javatools/distdiff.py", "javatools/jardiff.py", "javatools/distinfo.py", "javatools/jarinfo.py", "javatools/manifest.py", "javatools/jarutil.py"],
     [("walk, compare, _same_content, copydir", "javatools/dirutils.py"), ("ExplodedZipFile, zip_file, _deep_different", "javatools/ziputils.py"), ("DistInfo._working_path", "javatools/distinfo.py")],
     "A preloaded library makes each operation on the input fail in turn; one failing operation or file per execution; damage is one byte.",
     ["exit status", "results of calls"])

prop("C34", "Verification trusts the right signers",
     "A signature is accepted exactly if the signer's certificate, by valid certificates that may issue, leads to a self-signed one among those given, and its key usage, where stated, allows digital signatures or non-repudiation. The signer needs no extended key usage for e-mail protection, whatever other it has, but this waiver is for the signer only: an issuing certificate that is expired, no authority, may not sign certificates or is limited to an unrelated purpose is refused, as are one by a namesake, an unsuitable or expired signer, and a missing intermediate.",
     ["inputs"],
     "certificate chains of one to three: key usages x extended usages x validity x authority x signing keys x which are embedded x which are trusted",
     "the fixtures have a handful of certificates without extensions",
     ["javatools/crypto.py", "javatools/jarutil.py"],
     [("ignore_missing_email_protection_eku_cb", "javatools/crypto.py"), ("verify_signature_block", "javatools/crypto.py"), ("create_signature_block", "javatools/crypto.py")],
     "Certificates are made with M2Crypto for each execution; chains of two and three deviate from a good one in up to 2 (3-4) respects.",
     ["verify_signature_block", "exit status of jarutil v"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for p in P:
            fd.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(
                    files=p["files"],
                    mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                    observe_at=list(p["observe"]),
                    hook_needed=None))) + "\n")
    checks, na = [], []
    for p in P:
        mod = os.path.join(HERE, "checks", p["id"].lower() + ".py")
        if os.path.exists(mod):
            checks.append(dict(
                property=p["id"],
                quick_cmd="./check %s --tier quick" % p["id"],
                thorough_cmd="./check %s --tier thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=p["technique"] or CHOICE,
                level="model_checking",
                level_note=p["note"]))
        else:
            na.append(dict(property=p["id"],
                           reason="no check built yet (in progress)"))
    man = dict(version=1, setup_cmd="true", checks=checks,
               not_applicable=na,
               notes="Pure Python: the checks import /repo's working tree "
               "directly; checks that need the compiled templates build "
               "them with setup.py into a scratch directory. No hooks.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(man, fd, indent=1)
        fd.write("\n")


main()
