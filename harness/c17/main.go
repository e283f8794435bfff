//verif:pkg cmd/gosec
//verif:prop C17
package main

import "github.com/securego/gosec/v2/verifsym"

// Verif_C17_command: the report on the standard output and the one in the file are what each would be alone, and so is the exit status.
//
//verif:bounds all pairs of nine formats; a program with an open and a suppressed finding; plain, shown and tracked suppressions; with and without an error
//verif:quick 90s
func Verif_C17_command() {
	formats := []string{"json", "yaml", "csv", "junit-xml", "html", "sonarqube", "golint", "sarif", "text"}
	a, b := formats[verifsym.Choose("printed", len(formats))], formats[verifsym.Choose("saved", len(formats))]
	mode := verifsym.Choose("mode", 3)
	src := "package main\n\nimport \"math/rand\"\n\nfunc main() {\n\tprintln(rand.Int()) // #nosec G404 -- because\n\tprintln(rand.Int())\n}\n"
	if verifsym.Bool("broken") {
		src += "\nvar x int = \"text\"\n"
	}
	dir := verifsym.Dir([]verifsym.Src{{Name: "main.go", Text: src}})
	args := append([]string{"-include=G404", "-color=false", "-quiet"}, [][]string{{}, {"-show-ignored"}, {"-track-suppressions"}}[mode]...)
	run := func(more ...string) (int, string) {
		code, exited, out := verifsym.Command(main, append(append(append([]string{}, args...), more...), dir)...)
		verifsym.Assert(exited, "the command ends with an exit status")
		return code, out
	}
	c1, printed := run("-fmt=" + a)
	c2, none := run("-fmt="+b, "-out="+dir+"/alone")
	alone, ok := verifsym.ReadFile(dir + "/alone")
	verifsym.Assert(ok && none == "" && len(alone) > 0 && len(printed) > 0, "reports alone")
	c3, both := run("-fmt="+b, "-verbose="+a, "-stdout", "-out="+dir+"/both")
	saved, ok := verifsym.ReadFile(dir + "/both")
	verifsym.Assert(both == printed, "printed report")
	verifsym.Assert(ok && saved == alone, "saved report")
	verifsym.Assert(c1 == 1 && c2 == 1 && c3 == 1, "exit status")
}
