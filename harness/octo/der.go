package main

import "encoding/asn1"

// eeOf returns the certificate embedded in a signed object
func eeOf(cms []byte) []byte {
	var ci struct {
		Type    asn1.ObjectIdentifier
		Content asn1.RawValue `asn1:"explicit,tag:0"`
	}
	if _, err := asn1.Unmarshal(cms, &ci); err != nil {
		panic(err)
	}
	var sd struct {
		Version int
		Algs    asn1.RawValue
		Encap   asn1.RawValue
		Certs   asn1.RawValue `asn1:"optional,tag:0"`
		Signers asn1.RawValue
	}
	if _, err := asn1.Unmarshal(ci.Content.FullBytes, &sd); err != nil {
		if _, err := asn1.Unmarshal(ci.Content.Bytes, &sd); err != nil {
			panic(err)
		}
	}
	return sd.Certs.Bytes
}
