//verif:pkg cmd/gosec
//verif:prop C36
package main

import (
	"os"

	"github.com/securego/gosec/v2/verifsym"
)

// vcNoOutput runs the command with a standard output that takes no data.
func vcNoOutput() {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = f
		main()
	}
}

// Verif_C36_command: a run that cannot do what it was asked for fails, whatever it finds, and leaves no report that looks complete.
//
//verif:bounds nineteen failures (options with values that are not known, a configuration that is missing, a directory, truncated, no object or of the wrong shape, rules and packages that select nothing, a log or a report at a place where it cannot be created or that takes no data, in each format, a standard output that takes none), code with a finding or without, plain, with -no-fail or with -quiet
//verif:quick 100s
func Verif_C36_command() {
	body := "\treturn 1"
	if verifsym.Bool("finding") {
		body = "\treturn rand.Int()"
	}
	dir := verifsym.Dir([]verifsym.Src{
		{Name: "pkg/a.go", Text: "package p\n\nimport \"math/rand\"\n\nvar _ = rand.Seed\n\nfunc F() int {\n" + body + "\n}\n"},
		{Name: "empty/readme.txt", Text: "nothing\n"},
		{Name: "conf/broken.json", Text: "{\"global\": {\"nosec\": tr"},
		{Name: "conf/list.json", Text: "[1, 2]"},
		{Name: "conf/text.json", Text: "\"text\""},
		{Name: "conf/none.json", Text: ""},
		{Name: "conf/good.json", Text: "{\"global\": {\"audit\": false}}"},
	})
	formats := []string{"json", "yaml", "csv", "junit-xml", "html", "text", "sonarqube", "golint", "sarif"}
	out, format := dir+"/report", "json"
	args := []string{"-include=G404"}
	target := dir + "/pkg"
	good, quiet := false, false
	failure := verifsym.Choose("failure", 20)
	switch failure {
	case 0:
		good = true
	case 1:
		args = append(args, "-severity=critical")
	case 2:
		args = append(args, "-confidence=")
	case 3:
		args = append(args, "-conf="+dir+"/conf/missing.json")
	case 4:
		args = append(args, "-conf="+dir+"/conf")
	case 5:
		args = append(args, "-conf="+dir+"/conf/broken.json")
	case 6:
		args = append(args, "-conf="+dir+"/conf/list.json")
	case 7:
		args = append(args, "-conf="+dir+"/conf/text.json")
	case 8:
		args[0] = "-include=G999"
	case 9:
		args = append(args, "-exclude=G404")
	case 10:
		target = dir + "/empty/..."
	case 11:
		args = append(args, "-log="+dir+"/nowhere/log")
	case 12:
		format = formats[verifsym.Choose("format", len(formats))]
		out = dir + "/nowhere/report"
	case 13:
		format = formats[verifsym.Choose("format", len(formats))]
		out = dir + "/conf"
	case 19:
		format = formats[verifsym.Choose("format", len(formats))]
		out = "stdout"
		verifsym.Assume(body != "\treturn 1" || format != "csv" && format != "golint") // nothing to write
	case 15:
		args = append(args, "-conf="+dir+"/conf/none.json")
	case 16:
		args = append(args, "-severity=medium", "-confidence=highest")
	case 17:
		args = append(args, "-unknown")
	case 18:
		target = ""
	case 14:
		format = formats[verifsym.Choose("format", len(formats))]
		out = "/dev/full"
		verifsym.Assume(body != "\treturn 1" || format != "csv" && format != "golint") // nothing to write
	}
	nofail := false
	switch verifsym.Choose("flags", 3) {
	case 1:
		nofail = true
		args = append(args, "-no-fail")
	case 2:
		quiet = true
		args = append(args, "-quiet")
	}
	// a quiet run without findings has nothing to write
	silent := quiet && body == "\treturn 1"
	verifsym.Assume(!silent || failure < 12 || failure > 14 && failure < 19)
	start := main
	args = append(args, "-fmt="+format)
	if out == "stdout" {
		start = vcNoOutput
		if verifsym.Bool("saved as well") {
			args = append(args, "-stdout", "-out="+dir+"/conf/saved")
		}
	} else {
		args = append(args, "-out="+out)
	}
	if target != "" {
		args = append(args, target)
	}
	code, exited, _ := verifsym.Command(start, args...)
	verifsym.Assert(exited, "the command ends with an exit status")
	_, written := verifsym.ReadFile(dir + "/report")
	if good {
		fails := body != "\treturn 1" && !nofail
		verifsym.Assert((written || silent) && (code == 1) == fails, "a run without failures")
	} else {
		verifsym.Assert(code != 0, "the run fails")
		verifsym.Assert(!written, "no report")
	}
}
