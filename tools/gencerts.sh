#!/bin/bash
# How certs/ was made (committed, not regenerated by the checks; the simulated wall clock starts at 2023-11-14).
# good: 2020-2040 for server.test and *.wild.test; other: another host; expired: 2010-2020; future: 2035-2050; unknown: by an authority that isn't
# loaded; self: self-signed; chain: through an intermediate; notca: issued by a certificate which isn't an authority;
# chainold: through an intermediate that is valid until 2030; cnonly: the host only in the common name; badsig: good with a broken signature.
set -e
D=$(cd "$(dirname "$0")/.." && pwd)/certs; T=$(mktemp -d); cd "$T"
cat > c.cnf <<X
[ca]
default_ca=d
[d]
database=$T/db
new_certs_dir=$T
rand_serial=yes
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
[req]
distinguished_name=dn
prompt=no
[dn]
CN=x
[ca_ext]
basicConstraints=critical,CA:true
keyUsage=critical,keyCertSign,cRLSign
[leaf]
basicConstraints=CA:false
keyUsage=digitalSignature
subjectAltName=\${ENV::SAN}
X
export SAN=DNS:x
: > db
key() { openssl ecparam -name prime256v1 -genkey -noout -out $1.key; }
csr() { key $1; openssl req -new -key $1.key -subj "/CN=$2" -config c.cnf -out $1.csr; }
# sign name ext from to issuer|self
sign() { if [ $5 = self ]; then i="-selfsign -keyfile $1.key"; else i="-cert $5.pem -keyfile $5.key"; fi
  openssl ca -batch -notext -config c.cnf -in $1.csr -out $1.pem -extensions $2 -startdate $3 -enddate $4 $i 2>/dev/null; }
A=20000101000000Z; B=20990101000000Z; N0=20200101000000Z; N1=20400101000000Z
csr ca "Test CA"; sign ca ca_ext $A $B self
csr ca2 "Other CA"; sign ca2 ca_ext $A $B self
csr inter "Intermediate"; sign inter ca_ext $A $B ca
csr interold "Old Intermediate"; sign interold ca_ext 20100101000000Z 20300101000000Z ca
SAN="DNS:server.test,DNS:*.wild.test"
csr good server.test; sign good leaf $N0 $N1 ca
csr expired server.test; sign expired leaf 20100101000000Z 20200101000000Z ca
csr future server.test; sign future leaf 20350101000000Z 20500101000000Z ca
csr unknown server.test; sign unknown leaf $N0 $N1 ca2
csr self server.test; sign self leaf $N0 $N1 self
csr chainold server.test; sign chainold leaf $N0 $N1 interold
csr badsig server.test; sign badsig leaf $N0 $N1 ca
csr chain server.test; sign chain leaf $N0 $N1 inter
csr notca server.test; sign notca leaf $N0 $N1 good
SAN="DNS:other.test"; csr other other.test; sign other leaf $N0 $N1 ca
csr cnonly server.test; sed 's/^subjectAltName.*//' c.cnf > d.cnf; openssl ca -batch -notext -config d.cnf -in cnonly.csr -out cnonly.pem -extensions leaf -startdate $N0 -enddate $N1 -cert ca.pem -keyfile ca.key 2>/dev/null
openssl x509 -in badsig.pem -outform DER | python3 -c "import sys; b = bytearray(sys.stdin.buffer.read()); b[-5] ^= 1; sys.stdout.buffer.write(b)" > badsig.der; openssl x509 -inform DER -in badsig.der -out badsig.pem
cat interold.pem >> chainold.pem; cat inter.pem >> chain.pem; cat good.pem >> notca.pem
mkdir -p "$D"; cp ca.pem ca2.pem "$D"; for c in good expired future unknown self chain notca other chainold cnonly badsig; do cp $c.pem $c.key "$D"; done
cd /; rm -rf "$T"
