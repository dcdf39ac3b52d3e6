#!/bin/bash
# Writes the test certificates used by the C28 monitor (committed; only needed to make new ones).
set -e
out=$(cd "$(dirname "$0")/.." && pwd)/harness/pki
[ -n "$1" ] && out=$1
mkdir -p "$out"; cd "$out"
key() { case $2 in ec) openssl genpkey -algorithm EC -pkeyopt ec_paramgen_curve:P-256 -out "$1.key" 2>/dev/null;; rsa) openssl genpkey -algorithm RSA -pkeyopt rsa_keygen_bits:2048 -out "$1.key" 2>/dev/null;; ed) openssl genpkey -algorithm ED25519 -out "$1.key";; esac; }
ca() { key $1 ec; openssl req -x509 -new -key $1.key -subj "/CN=test root $1" -days 36500 -out $1.pem -addext basicConstraints=critical,CA:TRUE -addext keyUsage=critical,keyCertSign 2>/dev/null; }
# sign NAME ISSUER FROM TO: dates are fixed so that the certificates do not depend on when they were made
sign() {
  rm -rf ca.tmp; mkdir ca.tmp; touch ca.tmp/index; echo $(printf %04x $RANDOM) > ca.tmp/serial
  printf '[ca]\ndefault_ca=d\n[d]\ndatabase=ca.tmp/index\nserial=ca.tmp/serial\nnew_certs_dir=ca.tmp\ndefault_md=sha256\npolicy=p\n[p]\ncommonName=supplied\n' > ca.tmp/cnf
  openssl ca -batch -config ca.tmp/cnf -cert $2.pem -keyfile $2.key -in $1.csr -out $1.pem -startdate $3 -enddate $4 -extfile $1.ext -notext 2>/dev/null
  rm -rf ca.tmp $1.csr $1.ext
}
# leaf NAME ISSUER KEYTYPE SAN EKU [from to]
leaf() {
  key $1 $3
  openssl req -new -key $1.key -subj "/CN=${6:-leaf $1}" -out $1.csr 2>/dev/null
  { echo "basicConstraints=critical,CA:FALSE"; echo "extendedKeyUsage=$5"; [ -n "$4" ] && echo "subjectAltName=$4"; } > $1.ext
  sign $1 $2 ${7:-20000101000000Z} ${8:-20991231000000Z}
}
ca rootA; ca rootB
key interA ec; openssl req -new -key interA.key -subj "/CN=intermediate A" -out interA.csr 2>/dev/null
printf 'basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign\n' > interA.ext
sign interA rootA 20000101000000Z 20991231000000Z
BOTH="DNS:localhost,IP:127.0.0.1"
leaf both rootA ec $BOTH serverAuth
leaf host rootA rsa DNS:localhost serverAuth
leaf ip rootA ed IP:127.0.0.1 serverAuth
leaf other rootA ec DNS:irc.example,DNS:*.localhost.example,IP:127.0.0.2 serverAuth
leaf cnonly rootA ec "" serverAuth localhost
leaf clientonly rootA ec $BOTH clientAuth
leaf expired rootA ec $BOTH serverAuth "" 20010101000000Z 20020101000000Z
leaf future rootA ec $BOTH serverAuth "" 20900101000000Z 20950101000000Z
leaf fromB rootB ec $BOTH serverAuth
leaf inter interA ec $BOTH serverAuth
key self ec; openssl req -x509 -new -key self.key -subj "/CN=self" -days 36500 -out self.pem -addext "subjectAltName=$BOTH" -addext basicConstraints=critical,CA:FALSE 2>/dev/null
leaf cl1 rootA ec DNS:client1 clientAuth
leaf cl2 interA rsa DNS:client2 clientAuth
cat cl1.pem cl1.key > client1.pem
cat cl2.key cl2.pem interA.pem > client2.pem
cat client2.pem rootA.pem > client3.pem
cat cl1.pem > client_nokey.pem
openssl rsa -in cl2.key -traditional -out t.key 2>/dev/null; cat cl2.pem t.key > client_pkcs1.pem; rm t.key
cat rootA.pem rootB.pem > roots.pem
: > empty.pem
printf -- '-----BEGIN CERTIFICATE-----\n!!!!\n-----END CERTIFICATE-----\n' > garbage.pem
printf -- '-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n' > notacert.pem
rm -f cl1.* cl2.* rootA.key rootB.key interA.key
