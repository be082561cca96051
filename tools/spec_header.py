import os,runpy
g=runpy.run_path('/tmp/x/s2/mk.py') if False else None
S={}
GEN='''
package asn1go

import (
	"bytes"
	"strings"
	"testing"
)

func demoGen(t *testing.T, src string, repr IntegerRepr) string {
	m, err := ParseString(src)
	if err != nil {
		t.Fatal(err)
	}
	var b bytes.Buffer
	if err := NewCodeGenerator(GenParams{Package: "p", IntegerRepr: repr}).Generate(*m, &b); err != nil {
		t.Fatal(err)
	}
	return strings.Join(strings.Fields(b.String()), " ")
}

func wantIn(t *testing.T, code, part string) {
	if !strings.Contains(code, part) {
		t.Fatalf("no %s in\\n%s", part, code)
	}
}
'''
def gen(body): return GEN+'\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
def T(body,*imports):
    return 'package asn1go\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(imports+('testing',)))+')\n\nfunc TestDemo(t *testing.T) {\n'+body+'\n}\n'
def add(id,needs,breaks,edits,**kw):
    S[id]=dict(id=id,property=id.split('-')[0],needs=needs,breaks=breaks,edits=edits,**kw)

