#!/bin/bash
# Makes the certificates of C41 (net/src/trust.rs) anew, beside this file. Needs openssl 3.
set -eu
out=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d); cd "$d"
cat > ca.cnf <<'C'
[ca]
default_ca=d
[d]
new_certs_dir=.
database=index.txt
default_md=sha256
policy=p
rand_serial=yes
unique_subject=no
[p]
commonName=supplied
[v3ca]
basicConstraints=critical,CA:TRUE
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
[both]
basicConstraints=critical,CA:FALSE
keyUsage=critical,digitalSignature
extendedKeyUsage=serverAuth
subjectAltName=DNS:localhost,IP:127.0.0.1
[dns]
basicConstraints=critical,CA:FALSE
keyUsage=critical,digitalSignature
extendedKeyUsage=serverAuth
subjectAltName=DNS:localhost
[ip]
basicConstraints=critical,CA:FALSE
keyUsage=critical,digitalSignature
extendedKeyUsage=serverAuth
subjectAltName=IP:127.0.0.1
[other]
basicConstraints=critical,CA:FALSE
keyUsage=critical,digitalSignature
extendedKeyUsage=serverAuth
subjectAltName=DNS:elsewhere.example,DNS:xlocalhost,IP:127.0.0.2
[client]
basicConstraints=critical,CA:FALSE
keyUsage=critical,digitalSignature
extendedKeyUsage=clientAuth
subjectAltName=DNS:localhost,IP:127.0.0.1
C
: > index.txt
key() { openssl ecparam -name prime256v1 -genkey -noout -out "$1.sec1"; openssl pkcs8 -topk8 -nocrypt -in "$1.sec1" -out "$1.key"; }
sign() { # name ca ext start end
  key "$1"; openssl req -new -key "$1.key" -subj "/CN=verif $1" -out "$1.csr"
  openssl ca -batch -notext -config ca.cnf -extensions "$3" -keyfile "$2.key" -cert "$2.pem" -in "$1.csr" -out "$1.pem" -startdate "$4" -enddate "$5" 2>/dev/null
}
root() { key "$1"; openssl req -new -key "$1.key" -subj "/CN=verif $1" -out "$1.csr"
  openssl ca -batch -notext -selfsign -config ca.cnf -extensions v3ca -keyfile "$1.key" -in "$1.csr" -out "$1.pem" -startdate 20000101000000Z -enddate 21000101000000Z 2>/dev/null; }
root ca_a; root ca_b; root ca_s
L="20000101000000Z 21000101000000Z"
sign inter ca_a v3ca $L
sign a_both ca_a both $L; sign a_dns ca_a dns $L; sign a_ip ca_a ip $L; sign a_other ca_a other $L
sign a_expired ca_a both 20000101000000Z 20010101000000Z
sign a_future ca_a both 20900101000000Z 21000101000000Z
sign a_client ca_a client $L
sign i_both inter both $L; sign i_client inter client $L
sign b_both ca_b both $L; sign s_both ca_s both $L; sign s_other ca_s other $L
sign b_client ca_b client $L
cp *.pem *.key "$out"; cp a_client.sec1 i_client.sec1 b_client.sec1 "$out"
rm -f "$out"/[0-9A-F]*[0-9A-F].pem "$out"/ca_*.key "$out"/inter.key
cat i_client.pem inter.pem > "$out/i_client_chain.pem"
rm -r "$d"
