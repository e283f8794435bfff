//verif:pkg verifh
//verif:prop C14
package verifh

import (
	"encoding/json"
	"strings"

	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/verifsym"
)

// vPath is an arbitrary clean absolute path of n bytes after the first slash.
func vPath(name string, n int) string {
	if n == 0 {
		return "/"
	}
	s := verifsym.Str(name, n, "ab/")
	verifsym.Assume(verifsym.And(s[0] != '/', s[n-1] != '/'))
	for i := 1; i < n; i++ {
		verifsym.Assume(verifsym.Or(s[i-1] != '/', s[i] != '/'))
	}
	return "/" + s
}

// vUnder reports whether the file is in the tree of the root.
func vUnder(file, root string) bool {
	return strings.HasPrefix(file, strings.TrimSuffix(root, "/")+"/")
}

// vReportedAs gives the path under which the formats report the file, and whether they do.
func vReportedAs(file string, roots []string) (sonar []string, sarif string) {
	i := vPlain(0)
	i.File = file
	var s struct {
		Issues []struct{ PrimaryLocation struct{ FilePath string } }
	}
	verifsym.Assert(json.Unmarshal([]byte(vRendered("sonarqube", roots, vInfo([]*issue.Issue{i}))), &s) == nil, "JSON")
	for _, g := range s.Issues {
		sonar = append(sonar, g.PrimaryLocation.FilePath)
	}
	var r struct {
		Runs []struct {
			Results []struct {
				Locations []struct {
					PhysicalLocation struct{ ArtifactLocation struct{ URI string } }
				}
			}
		}
	}
	verifsym.Assert(json.Unmarshal([]byte(vRendered("sarif", roots, vInfo([]*issue.Issue{i}))), &r) == nil, "JSON")
	verifsym.Assert(len(r.Runs[0].Results) == 1 && len(r.Runs[0].Results[0].Locations) == 1, "every finding")
	return sonar, r.Runs[0].Results[0].Locations[0].PhysicalLocation.ArtifactLocation.URI
}

// vRelative asserts that the file is reported relative to one of the roots exactly when one contains it.
func vRelative(file string, roots []string) {
	sonar, sarif := vReportedAs(file, roots)
	under := false
	for _, r := range roots {
		under = under || vUnder(file, r)
	}
	if !under {
		verifsym.Assert(len(sonar) == 0, "a file outside all roots is not taken for one inside")
		verifsym.Assert(sarif == "" || sarif == file, "a file outside all roots has no relative path")
		return
	}
	verifsym.Assert(len(sonar) == 1, "every finding under a root")
	ok := false
	for _, r := range roots {
		if vUnder(file, r) {
			ok = ok || strings.TrimSuffix(r, "/")+"/"+sonar[0] == file
		}
	}
	verifsym.Assert(ok, "relative to a root that contains the file")
	verifsym.Assert(sarif == sonar[0], "the formats agree")
}

// Verif_C14_one: the path in the report is relative to the root exactly when the root contains the file.
//
//verif:bounds one clean absolute root of up to four bytes and a file in a clean absolute directory of up to five bytes over a, b and slashes
//verif:quick 60s
func Verif_C14_one() {
	root := vPath("root", verifsym.Choose("root size", 5))
	dir := vPath("directory", verifsym.Choose("directory size", 6))
	vRelative(strings.TrimSuffix(dir, "/")+"/f.go", []string{root})
}

// Verif_C14_roots: so it is with several roots, nested ones and ones with a common prefix included, and in any order.
//
//verif:bounds two clean absolute roots (three in the thorough tier) of up to three bytes and a file in a clean absolute directory of up to four bytes over a, b and slashes
//verif:quick 90s
func Verif_C14_roots() {
	roots := []string{vPath("root", verifsym.Choose("root size", 4)), vPath("other", verifsym.Choose("other size", 4))}
	if verifsym.Tier() > 0 {
		roots = append(roots, vPath("third", verifsym.Choose("third size", 4)))
	}
	dir := vPath("directory", verifsym.Choose("directory size", 5))
	file := strings.TrimSuffix(dir, "/") + "/f.go"
	vRelative(file, roots)
	sonar, sarif := vReportedAs(file, roots)
	sonar2, sarif2 := vReportedAs(file, []string{roots[1], roots[0]})
	if verifsym.Tier() == 0 {
		verifsym.Assert(len(sonar) == len(sonar2) && sarif == sarif2, "any order of the roots")
		for k := range sonar {
			verifsym.Assert(sonar[k] == sonar2[k], "any order of the roots")
		}
	}
}

// Verif_C14_outside: a finding in a file outside all roots does not change how the others are reported.
//
//verif:bounds two roots and three findings, each in a file under the first, the second or neither
//verif:quick 30s
func Verif_C14_outside() {
	roots := []string{"/work/app", "/work/lib"}
	files := []string{"/work/app/f.go", "/work/lib/g.go", "/work/library/h.go"}
	names := []string{"f.go", "g.go", ""}
	var all []*issue.Issue
	var want []string
	for k := 0; k < 3; k++ {
		c := verifsym.Choose("file", 3)
		i := vPlain(k)
		i.File = files[c]
		all = append(all, i)
		if names[c] != "" {
			want = append(want, names[c])
		}
	}
	var s struct {
		Issues []struct{ PrimaryLocation struct{ FilePath string } }
	}
	verifsym.Assert(json.Unmarshal([]byte(vRendered("sonarqube", roots, vInfo(all))), &s) == nil, "JSON")
	verifsym.Assert(len(s.Issues) == len(want), "exactly the findings under a root")
	for k := range want {
		verifsym.Assert(s.Issues[k].PrimaryLocation.FilePath == want[k], "each with its own path")
	}
}
