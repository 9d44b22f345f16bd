"""names of files and entries, for guarantees that hold for every name"""

DIRS = ["", "META-INF/", "META-INF/services/", "META-INF/versions/9/",
        "META-INF/maven/g/a/", "META-INF/META-INF/", "META-INF/SIG-/",
        "WEB-INF/", "WEB-INF/classes/", "BOOT-INF/lib/", "x/META-INF/",
        "meta-inf/", "meta-inf/services/", "META-INFX/", "XMETA-INF/",
        "Meta-Inf/d/", "./", ".git/", "CVS/", "a.class/", "x.jar/", "__x/",
        "test/", "target/classes/", "-d/", "d e/", "\u00e9/"]
FILES = ["a.class", "MANIFEST.MF", "INDEX.LIST", "X.SF", "X.RSA", "x.dsa",
         "x.ec", "SIG-A", "sig-a", "p.Service", ".hidden", "LICENSE", "x.jar",
         "x.list", "package-info.class", "module-info.class", "Thumbs.db",
         "x.properties", "x.xml", "pom.properties", "x.SF~", "XSF", "SF",
         "RSA", "x.RSA.txt", "SIG", "_SIG-A", "a b", "a:b", "a.SF/b",
         "x~", "x.bak", "a$1.class", "x.tmp", "#x#", "CVS", ".gitignore",
         ".DS_Store", "-m", "x.CLASS", ".class", "class", "a.class.b",
         "x.war", "x.zip", "*", "[a]", "?", "x.pyc", "\u20ac", "core",
         "a\\b", "_", "~", "a%20b", "...", "x."]

# for files in a directory
PATHS = [d + f for d in DIRS for f in FILES if d != "./"]
ENTRIES = [d + f for d in DIRS for f in FILES]
# that can be there all at once
TOGETHER = [n for n in PATHS
            if not any(m.startswith(n + "/") for m in PATHS)]


def choose(ctx, paths=True):
    n = ctx.choose("dir", DIRS) + ctx.choose("file", FILES)
    if paths and n.startswith("./"):
        ctx.choose("n/a", [])
    return n
