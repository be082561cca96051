package wire

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net"
	"net/url"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"time"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
)

// Example is a compiled package of a module that comes with the repository.
type Example struct {
	Name   string
	Text   string
	BigInt bool
	Types  map[string]reflect.Type
}

// Subjects are the structured types of a module whose values encoding/asn1 can represent, without tags that stand
// on types that references name (they are not generated), and without components that tell apart strings only.
func Subjects(m *a.ModuleDefinition) []string {
	env := gen.NewEnv(m)
	var out []string
	for _, x := range m.ModuleBody.AssignmentList {
		x, ok := x.(a.TypeAssignment)
		if !ok {
			continue
		}
		_, rep, _ := Resolve(env, x.Type)
		if (rep == RepStruct || rep == RepList) && expressible(env, x.Type, 0) {
			out = append(out, string(x.TypeReference))
		}
	}
	return out
}

// expressible looks at what stands below a type.
func expressible(env gen.Env, t a.Type, depth int) bool {
	if depth > 50 {
		return false
	}
	leaf, rep, _ := Resolve(env, t)
	switch rep {
	case RepRaw:
		return false
	case RepList:
		if _, rep, _ := Resolve(env, elemOf(leaf)); rep == RepAny { // encoding/asn1 does not decode it
			return false
		}
		return part(env, elemOf(leaf), depth)
	case RepStruct:
		_, set := leaf.(a.SetType)
		strings := 0
		for _, c := range Components(leaf) {
			optional := c.IsOptional || c.Default != nil
			if !optional && !part(env, c.NamedType.Type, depth) {
				return false
			}
			sub, rep, _ := Resolve(env, c.NamedType.Type)
			if _, ok := c.NamedType.Type.(a.TaggedType); ok {
				if rep == RepAny { // encoding/asn1 ignores the tag of an interface
					return false
				}
				continue
			}
			if rep == RepList {
				continue
			}
			switch sub.(type) {
			case a.RestrictedStringType, a.CharacterStringType:
				strings++
			}
		}
		return !set || strings < 2
	case RepAny:
		if c, ok := leaf.(a.ChoiceType); ok {
			alts, _ := Alternatives(c)
			for _, x := range alts {
				if _, rep, _ := Resolve(env, x.Type); rep != RepLeaf {
					return false
				}
				if s, ok := env.Leaf(x.Type).(a.RestrictedStringType); ok && s.LexType != a.PrintableString && s.LexType != a.UTF8String {
					return false
				}
			}
		}
	}
	return true
}

// part is expressible, and does not name a tagged type.
func part(env gen.Env, t a.Type, depth int) bool {
	for x, n := t, 0; n < 1000; n++ {
		x = gen.Strip(x)
		r, ok := x.(a.TypeReference)
		if !ok {
			break
		}
		next, ok := env[string(r)]
		if !ok {
			break
		}
		for {
			c, ok := next.(a.ConstraintedType)
			if !ok {
				break
			}
			next = c.Type
		}
		if _, ok := next.(a.TaggedType); ok {
			return false
		}
		x = next
	}
	return expressible(env, t, depth+1)
}

var classParam = map[int]string{a.CLASS_APPLICATION: ",application", a.CLASS_PRIVATE: ",private", a.CLASS_CONTEXT_SPECIFIC: ""}

// ExamplesMain runs values of the examples, and certificates.
func ExamplesMain(seed int64, values, certs int, pemFile string, examples []Example) {
	rep := Report{Counts: map[string]int{}}
	for i, x := range examples {
		m, err := a.ParseString(x.Text)
		if err != nil {
			rep.Problems = append(rep.Problems, Problem{Pkg: i, Text: err.Error()})
			break
		}
		rep.example(i, m, x, mrand.New(mrand.NewSource(seed+int64(i)*7919)), values)
		if _, ok := x.Types["Certificate"]; ok {
			x509Values(&rep, i, x, mrand.New(mrand.NewSource(seed+int64(i)*104729)), certs, pemFile)
		}
	}
	rep.Done = true
	json.NewEncoder(os.Stdout).Encode(rep)
}

func (rep *Report) example(index int, m *a.ModuleDefinition, x Example, r *mrand.Rand, values int) {
	env := gen.NewEnv(m)
	enc := &Encoder{Env: env, TagDefault: m.TagDefault}
	written := &Encoder{Env: env, TagDefault: m.TagDefault, StringTag: func(lex int, s string) int {
		switch lex {
		case a.UTF8String, a.NumericString, a.PrintableString, a.IA5String:
			return stringTags[lex]
		}
		for _, c := range s {
			if !strings.ContainsRune(printable, c) {
				return 12
			}
		}
		return 19
	}}
	vs := &Values{R: r, Env: env, TagDefault: m.TagDefault, BigInt: x.BigInt}
	vs.Keep = func(c a.NamedComponentType) int {
		if !part(env, c.NamedType.Type, 0) {
			return -1
		}
		if _, rep, _ := Resolve(env, c.NamedType.Type); rep == RepAny {
			return 1 // encoding/asn1 does not encode an interface that is nil
		}
		return 0
	}
	for _, n := range Subjects(m) {
		t := env[n]
		rt, ok := x.Types[n]
		if !ok {
			rep.Problems = append(rep.Problems, Problem{Pkg: index, Type: n, Text: "type is not generated"})
			continue
		}
		g := &Go{Enc: enc, Written: written}
		if tt, ok := t.(a.TaggedType); ok {
			g.Params = fmt.Sprintf("tag:%d%s", int(tt.Tag.ClassNumber.(a.Number)), classParam[tt.Tag.Class])
			if explicit(env, m.TagDefault, tt) {
				g.Params += ",explicit"
			}
			rep.Counts[x.Name+" types with a tag of their own"]++
		}
		if _, ok := env.Leaf(t).(a.SetType); ok {
			g.Params += ",set"
		}
		rep.Counts[x.Name+" types"]++
		for k := 0; k < values; k++ {
			v, ok := vs.Value(t)
			if !ok {
				rep.Counts["no value found"]++
				continue
			}
			rep.Values++
			if text := RoundTrip(g, rt, t, v); text != "" {
				rep.Problems = append(rep.Problems, Problem{index, n, trim(fmt.Sprintf("%+v", v)), text})
				break
			}
			rep.count(env, t, v)
			if k == 0 && len(rep.Samples) < 5 {
				rep.Samples = append(rep.Samples, fmt.Sprintf("%s %x", n, trim(string(enc.Encode(t, v)))))
			}
		}
	}
}

// at follows fields by the names of components.
func at(v reflect.Value, path ...string) reflect.Value {
	for _, n := range path {
		f := v.FieldByName(gen.GoName(n))
		if !f.IsValid() {
			panic(fmt.Sprintf("no field %s in %v", n, v.Type()))
		}
		v = f
	}
	return v
}

type oops string

func check(ok bool, format string, args ...any) {
	if !ok {
		panic(oops(fmt.Sprintf(format, args...)))
	}
}

func same(what string, got, want any) {
	check(reflect.DeepEqual(got, want), "%s is %v instead of %v", what, got, want)
}

func integer(v reflect.Value) *big.Int {
	if b, ok := v.Interface().(*big.Int); ok {
		if b == nil {
			return new(big.Int)
		}
		return b
	}
	return big.NewInt(v.Int())
}

func sameTime(what string, v reflect.Value, want time.Time) {
	t, ok := v.Interface().(time.Time)
	check(ok && t.Equal(want), "%s is %v instead of %v", what, v.Interface(), want)
}

func sameName(what string, v reflect.Value, raw []byte) {
	var want pkix.RDNSequence
	_, err := asn1.Unmarshal(raw, &want)
	check(err == nil, "%s: %v", what, err)
	same(what+": number of names", v.Len(), len(want))
	for i, set := range want {
		same(what+": size of the set", v.Index(i).Len(), len(set))
		for k, x := range set {
			y := v.Index(i).Index(k)
			same(what+": attribute type", at(y, "type").Interface(), x.Type)
			same(what+": attribute value", at(y, "value").Interface(), x.Value)
		}
	}
}

func sameExtensions(what string, v reflect.Value, want []pkix.Extension) {
	same(what+": number of extensions", v.Len(), len(want))
	for i, x := range want {
		y := v.Index(i)
		same(what+": extnID", at(y, "extnID").Interface(), x.Id)
		same(what+": critical", at(y, "critical").Bool(), x.Critical)
		same(what+": extnValue", at(y, "extnValue").Bytes(), x.Value)
	}
}

// complete sets parameters of algorithms, that encoding/asn1 leaves nil for what is absent and for types that it does
// not know: it is not able to encode nil.
func complete(v reflect.Value, null bool) {
	switch v.Kind() {
	case reflect.Struct:
		if _, ok := v.Interface().(time.Time); ok {
			return
		}
		if _, ok := v.Interface().(big.Int); ok {
			return
		}
		if f := v.FieldByName("Parameters"); f.IsValid() && f.Kind() == reflect.Interface && f.IsNil() {
			raw := asn1.RawValue{}
			if null {
				raw = asn1.NullRawValue
			}
			f.Set(reflect.ValueOf(raw))
		}
		for i := 0; i < v.NumField(); i++ {
			complete(v.Field(i), null)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			complete(v.Index(i), null)
		}
	}
}

func pick[T any](r *mrand.Rand, xs []T, max int) []T {
	var out []T
	for n := r.Intn(max + 1); n > 0; n-- {
		out = append(out, xs[r.Intn(len(xs))])
	}
	return out
}

var words = []string{"Example", "a", "Ümläut", "日本", "x y z", "test*", "a@b", "12", "-", "Foo & Bar", "(q)", "very long " + strings.Repeat("name ", 40)}

func x509Name(r *mrand.Rand) pkix.Name {
	n := pkix.Name{Country: pick(r, []string{"DE", "US", "RU"}, 2), Organization: pick(r, words, 2), OrganizationalUnit: pick(r, words, 3),
		Locality: pick(r, words, 1), Province: pick(r, words, 1), StreetAddress: pick(r, words, 1), PostalCode: pick(r, words, 1)}
	if r.Intn(2) == 0 {
		n.CommonName = words[r.Intn(len(words))]
	}
	if r.Intn(3) == 0 {
		n.SerialNumber = fmt.Sprint(r.Int())
	}
	if r.Intn(3) == 0 {
		n.ExtraNames = []pkix.AttributeTypeAndValue{{Type: asn1.ObjectIdentifier{0, 9, 2342, 19200300, 100, 1, 25}, Value: "example"}}
	}
	return n
}

func x509Time(r *mrand.Rand) time.Time {
	year := []int{1950 + r.Intn(100), 2049, 2050, 2050 + r.Intn(7000), 1950}[r.Intn(5)]
	return time.Date(year, time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
}

func x509Extra(r *mrand.Rand) []pkix.Extension {
	var out []pkix.Extension
	for n := r.Intn(4); n > 0; n-- {
		b := make([]byte, r.Intn(300))
		r.Read(b)
		out = append(out, pkix.Extension{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 1 + r.Intn(1<<20), n}, Critical: r.Intn(2) == 0, Value: b})
	}
	return out
}

func x509Serial(r *mrand.Rand, big64 bool) *big.Int {
	if !big64 {
		return big.NewInt(1 + r.Int63()>>uint(r.Intn(60)))
	}
	b := make([]byte, 1+r.Intn(20))
	r.Read(b)
	b[0] &= 0x7f
	x := new(big.Int).SetBytes(b)
	return x.Add(x, big.NewInt(1))
}

// x509Values makes certificates and revocation lists.
func x509Values(rep *Report, index int, x Example, r *mrand.Rand, n int, pemFile string) {
	attempt := func(what string, f func() []byte) {
		defer func() {
			if p := recover(); p != nil {
				text, ok := p.(oops)
				if !ok {
					text = oops(fmt.Sprintf("panic: %v\n%s", p, debug.Stack()))
				}
				rep.Problems = append(rep.Problems, Problem{Pkg: index, Type: what, Text: string(text)})
			}
		}()
		rep.Values++
		if f() != nil {
			rep.Counts[x.Name+" "+what]++
		}
	}
	reencode := func(y reflect.Value, der []byte, null bool) {
		complete(y.Elem(), null)
		again, err := asn1.Marshal(y.Elem().Interface())
		check(err == nil, "decoded value is not encoded: %v", err)
		check(bytes.Equal(again, der), "decoded value is encoded as\n%x instead of\n%x", again, der)
	}
	decode := func(name string, der []byte) reflect.Value {
		y := reflect.New(x.Types[name])
		rest, err := asn1.Unmarshal(der, y.Interface())
		check(err == nil, "%x is not decoded: %v", der, err)
		check(len(rest) == 0, "%x leaves %x", der, rest)
		return y
	}
	compare := func(v reflect.Value, c *x509.Certificate) {
		tbs := at(v, "tbsCertificate")
		same("version", integer(at(tbs, "version")), big.NewInt(int64(c.Version-1)))
		check(integer(at(tbs, "serialNumber")).Cmp(c.SerialNumber) == 0, "serial number is %v instead of %v", integer(at(tbs, "serialNumber")), c.SerialNumber)
		sameName("issuer", at(tbs, "issuer"), c.RawIssuer)
		sameName("subject", at(tbs, "subject"), c.RawSubject)
		sameTime("notBefore", at(tbs, "validity", "notBefore"), c.NotBefore)
		sameTime("notAfter", at(tbs, "validity", "notAfter"), c.NotAfter)
		sameExtensions("certificate", at(tbs, "extensions"), c.Extensions)
		var spki struct {
			Algorithm pkix.AlgorithmIdentifier
			Key       asn1.BitString
		}
		_, err := asn1.Unmarshal(c.RawSubjectPublicKeyInfo, &spki)
		check(err == nil, "public key: %v", err)
		same("public key", at(tbs, "subjectPublicKeyInfo", "subjectPublicKey").Interface(), spki.Key)
		same("algorithm of the key", at(tbs, "subjectPublicKeyInfo", "algorithm", "algorithm").Interface(), spki.Algorithm.Algorithm)
		same("signature", at(v, "signature").Interface(), asn1.BitString{Bytes: c.Signature, BitLength: 8 * len(c.Signature)})
		same("algorithms", at(v, "signatureAlgorithm", "algorithm").Interface(), at(tbs, "signature", "algorithm").Interface())
	}
	for i := 0; i < n && len(rep.Problems) < 20; i++ {
		seed := make([]byte, 32)
		r.Read(seed)
		key := ed25519.NewKeyFromSeed(seed)
		parent := &x509.Certificate{Subject: x509Name(r), SerialNumber: big.NewInt(1), SubjectKeyId: []byte{1, 2, 3}, KeyUsage: x509.KeyUsageCRLSign | x509.KeyUsageCertSign}
		attempt("certificates", func() []byte {
			t := &x509.Certificate{Subject: x509Name(r), SerialNumber: x509Serial(r, x.BigInt), NotBefore: x509Time(r), NotAfter: x509Time(r),
				KeyUsage: x509.KeyUsage(r.Intn(512)), BasicConstraintsValid: r.Intn(2) == 0, IsCA: r.Intn(2) == 0, ExtraExtensions: x509Extra(r),
				DNSNames: pick(r, []string{"example.com", "*.example.org", "a"}, 3), EmailAddresses: pick(r, []string{"a@example.com"}, 1)}
			if r.Intn(3) == 0 {
				t.IPAddresses = []net.IP{net.IPv4(1, 2, 3, byte(r.Intn(256)))}
				t.URIs = []*url.URL{{Scheme: "https", Host: "example.com"}}
				t.CRLDistributionPoints = []string{"http://example.com/crl"}
			}
			der, err := x509.CreateCertificate(rand.Reader, t, parent, key.Public(), key)
			if err != nil {
				rep.Counts["not created by crypto/x509: "+err.Error()]++
				return nil
			}
			c, err := x509.ParseCertificate(der)
			if err != nil {
				rep.Counts["not parsed by crypto/x509: "+err.Error()]++
				return nil
			}
			y := decode("Certificate", der)
			compare(y.Elem(), c)
			reencode(y, der, false)
			rep.Counts[fmt.Sprintf("extensions %d", len(c.Extensions))]++
			return der
		})
		attempt("revocation lists", func() []byte {
			t := &x509.RevocationList{Number: x509Serial(r, true), ThisUpdate: x509Time(r), ExtraExtensions: x509Extra(r)}
			t.NextUpdate = t.ThisUpdate.AddDate(0, 0, 1+r.Intn(1000))
			for k := r.Intn(8); k > 0; k-- {
				e := x509.RevocationListEntry{SerialNumber: x509Serial(r, x.BigInt), RevocationTime: x509Time(r), ReasonCode: r.Intn(7)}
				if r.Intn(2) == 0 {
					e.ExtraExtensions = x509Extra(r)
				}
				t.RevokedCertificateEntries = append(t.RevokedCertificateEntries, e)
			}
			der, err := x509.CreateRevocationList(rand.Reader, t, parent, key)
			if err != nil {
				rep.Counts["not created by crypto/x509: "+err.Error()]++
				return nil
			}
			c, err := x509.ParseRevocationList(der)
			if err != nil {
				rep.Counts["not parsed by crypto/x509: "+err.Error()]++
				return nil
			}
			y := decode("CertificateList", der)
			tbs := at(y.Elem(), "tbsCertList")
			same("version", integer(at(tbs, "version")).Int64(), int64(1))
			sameName("issuer", at(tbs, "issuer"), c.RawIssuer)
			sameTime("thisUpdate", at(tbs, "thisUpdate"), c.ThisUpdate)
			sameTime("nextUpdate", at(tbs, "nextUpdate"), c.NextUpdate)
			sameExtensions("list", at(tbs, "crlExtensions"), c.Extensions)
			l := at(tbs, "revokedCertificates")
			same("number of entries", l.Len(), len(c.RevokedCertificateEntries))
			for k, e := range c.RevokedCertificateEntries {
				check(integer(at(l.Index(k), "userCertificate")).Cmp(e.SerialNumber) == 0, "serial number of entry %d", k)
				sameTime("revocationDate", at(l.Index(k), "revocationDate"), e.RevocationTime)
				sameExtensions("entry", at(l.Index(k), "crlEntryExtensions"), e.Extensions)
			}
			same("signature", at(y.Elem(), "signature").Interface(), asn1.BitString{Bytes: c.Signature, BitLength: 8 * len(c.Signature)})
			reencode(y, der, false)
			rep.Counts[fmt.Sprintf("entries %d", len(c.RevokedCertificateEntries))]++
			return der
		})
	}
	if x.BigInt { // its serial number is long
		attempt("certificate in testdata", func() []byte {
			data, err := os.ReadFile(pemFile)
			if err != nil {
				return nil
			}
			block, _ := pem.Decode(data)
			c, err := x509.ParseCertificate(block.Bytes)
			if err != nil {
				return nil
			}
			y := decode("Certificate", block.Bytes)
			compare(y.Elem(), c)
			reencode(y, block.Bytes, true)
			return block.Bytes
		})
	}
}
