#!/bin/bash
# Development tool: makes the keys and certificates in fixtures/ (valid for
# a hundred years; worthless, for tests only).
set -e
# valid from 2020 on, whatever the clock of the sandbox says
openssl() { faketime "2020-01-01 00:00:00" /usr/bin/openssl "$@"; }
cd "$(dirname "$0")/../fixtures"
D="-days 36500 -batch"
ext="-addext basicConstraints=critical,CA:TRUE"
sub() { echo "/CN=$1/O=Verification fixture"; }
for n in rsa1 rsa2; do
  openssl genpkey -quiet -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out $n.key
done
for n in ec1 ec2; do
  openssl genpkey -quiet -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -pkeyopt ec_param_enc:named_curve -out $n.key
done
openssl genpkey -quiet -algorithm EC -pkeyopt ec_paramgen_curve:P-384 -pkeyopt ec_param_enc:named_curve -out ec3.key
openssl genpkey -quiet -genparam -algorithm DSA -pkeyopt dsa_paramgen_bits:2048 -pkeyopt dsa_paramgen_q_bits:256 -out dsap
for n in dsa1 dsa2; do openssl genpkey -quiet -paramfile dsap -out $n.key; done
rm dsap
# the traditional forms of some
openssl rsa -in rsa1.key -traditional -out rsa1t.key 2>/dev/null
openssl ec -in ec1.key -out ec1t.key 2>/dev/null
openssl dsa -in dsa1.key -out dsa1t.key 2>/dev/null
for n in rsa1 rsa2 ec1 ec2 ec3 dsa1 dsa2; do
  openssl req -x509 -new -key $n.key -sha256 -subj "$(sub $n)" $D -out $n.pem
done
# a chain: root, intermediate, leaf
for n in root inter leaf; do
  openssl genpkey -quiet -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out $n.key
done
openssl req -x509 -new -key root.key -sha256 -subj "$(sub root)" $D $ext -out root.pem
mk() { # name issuer extensions
  openssl req -new -key $1.key -subj "$(sub $1)" -batch -out $1.csr
  openssl x509 -req -in $1.csr -CA $2.pem -CAkey $2.key -sha256 -days 36500 \
    -set_serial $RANDOM$RANDOM -extfile <(echo "$3") -out $1.pem 2>/dev/null
  rm $1.csr
}
mk inter root "basicConstraints=critical,CA:TRUE"
mk leaf inter "keyUsage=digitalSignature"
# leaves directly below the root, of other key types and key usages
cp ec1.key ecleaf.key; mk ecleaf root "keyUsage=digitalSignature"
cp dsa1.key dsaleaf.key; mk dsaleaf root "keyUsage=digitalSignature"
cp rsa2.key eku.key; mk eku root "extendedKeyUsage=codeSigning"
cp rsa2.key noku.key; mk noku root "basicConstraints=CA:FALSE"
cp rsa2.key wrongku.key; mk wrongku root $'keyUsage=keyEncipherment\nextendedKeyUsage=codeSigning'
rm root.key inter.key
chmod 644 *.key *.pem
