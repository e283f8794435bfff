//verif:pkg cmd/tlsconfig
//verif:prop C37
package main

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/mozilla/tls-observatory/constants"
	"github.com/securego/gosec/v2/verifsym"
)

// Verif_C37_table: the table of a recommendation has its lowest and its highest version and every suite that is named, under each of the names Go programs may give it, and no other.
//
//verif:bounds any sequence of up to three versions (thorough: four), each TLSv1 with or without an arbitrary minor digit, or an unknown one, and their absence, or up to five cipher suites by name, one arbitrary, and up to three by OpenSSL name (known with one or two names, unknown, empty); three recommendations in one document, and one that is missing
//verif:quick 60s
func Verif_C37_table() {
	var versions []string
	low, high := 0, 0
	part := verifsym.Choose("part", 2)
	n := 1
	if part == 0 {
		n = verifsym.Choose("versions", 4+verifsym.Tier())
	}
	for k := 0; k < n; k++ {
		v := 0x301
		switch text := "TLSv1." + verifsym.Str("minor", 1, "0-9"); verifsym.Choose("version", 3) {
		case 0:
			versions = append(versions, "TLSv1")
		case 1:
			versions, v = append(versions, "SSLv3"), 0
		case 2:
			versions, v = append(versions, text), 0
			for m := 1; m <= 3; m++ {
				if text[6] == byte('0'+m) {
					v = 0x301 + m
				}
			}
		}
		if v != 0 && (low == 0 || v < low) {
			low = v
		}
		if v > high {
			high = v
		}
	}
	suites := []string{"TLS_AES_128_GCM_SHA256", verifsym.Str("suite", 3, "A-Z_"), "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256", "TLS_OTHER"}
	if part == 0 {
		suites = suites[:2]
	} else {
		suites = suites[:verifsym.Choose("suites", 6)]
	}
	known := []string{"ECDHE-RSA-AES128-GCM-SHA256", "DES-CBC3-SHA", "no-such-suite", ""}
	want := append([]string{}, suites...)
	var ciphers []string
	n = 1
	if part == 1 {
		n = verifsym.Choose("ciphers", 4)
	}
	for ; n > 0; n-- {
		c := known[verifsym.Choose("cipher", len(known))]
		ciphers = append(ciphers, c)
		if s := constants.CipherSuites[c]; s.IANAName != "" {
			want = append(want, s.IANAName)
			if s.NSSName != "" && s.NSSName != s.IANAName {
				want = append(want, s.NSSName)
			}
		}
	}
	conf := ServerSideTLSJson{Configurations: map[string]Configuration{
		"modern":       {TLSVersions: []string{"TLSv1.3"}},
		"intermediate": {OpenSSLCiphersuites: suites, OpenSSLCiphers: ciphers, TLSVersions: versions},
		"old":          {OpenSSLCiphersuites: []string{"TLS_OLD"}, TLSVersions: []string{"TLSv1", "TLSv1.3"}},
	}}
	c, err := getGoCipherConfig("intermediate", conf)
	if low == 0 {
		verifsym.Assert(err != nil, "a recommendation without versions is no recommendation")
		return
	}
	verifsym.Assert(err == nil && c.Name == "Intermediate", "the recommendation")
	verifsym.Assert(c.MinVersion == "0x0"+strconv.FormatInt(int64(low), 16) && c.MaxVersion == "0x0"+strconv.FormatInt(int64(high), 16), "its lowest and its highest version")
	verifsym.Assert(len(c.Ciphers) == len(want), "its suites")
	for k, w := range want {
		verifsym.Assert(c.Ciphers[k] == w, "its suites, in their order")
	}
	_, err = getGoCipherConfig("future", conf)
	verifsym.Assert(err != nil, "a recommendation that is missing")
}

// Verif_C37_source: the generated source has the versions and the suites of each recommendation, in its own constructor.
//
//verif:bounds two recommendations with up to two suites each, one with an arbitrary name of four letters; arbitrary versions of three digits for one of them
//verif:quick 30s
func Verif_C37_source() {
	var confs []goCipherConfiguration
	for k := 0; k < 2; k++ {
		n := strconv.Itoa(k)
		c := goCipherConfiguration{Name: []string{"Modern", "Old"}[k], MinVersion: "0x" + verifsym.Str("low "+n, 3, "0-9"), MaxVersion: "0x" + verifsym.Str("high "+n, 3, "0-9")}
		if k == 1 {
			c.MinVersion, c.MaxVersion = "0x0301", "0x0304"
		}
		c.Ciphers = []string{verifsym.Str("suite "+n, 4, "A-Z_"), "TLS_FIXED"}[:verifsym.Choose("suites "+n, 3)]
		confs = append(confs, c)
	}
	var buf bytes.Buffer
	verifsym.Assert(generatedHeaderTmpl.Execute(&buf, "tables") == nil, "the header")
	verifsym.Assert(strings.TrimSpace(strings.SplitN(buf.String(), "import", 2)[0]) == "package tables", "the package")
	for _, c := range confs {
		buf.Reset()
		verifsym.Assert(generatedRuleTmpl.Execute(&buf, c) == nil, "the source of a table")
		var words []string
		for _, w := range vcWords(buf.String()) {
			words = append(words, strings.TrimSuffix(w, ","))
		}
		at := -1
		for k, w := range words {
			switch w {
			case "MinVersion:":
				verifsym.Assert(words[k+1] == c.MinVersion, "the lowest version")
			case "MaxVersion:":
				verifsym.Assert(words[k+1] == c.MaxVersion, "the highest version")
			case "[]string{":
				at = k + 1
			case "New" + c.Name + "TLSCheck(id":
				verifsym.Reach("constructor")
			}
		}
		verifsym.Assert(at > 0 && words[at+len(c.Ciphers)] == "}", "the suites")
		for k, suite := range c.Ciphers {
			verifsym.Assert(words[at+k] == "\""+suite+"\"", "its suites")
		}
	}
}

// vcWords splits a text at its blanks.
func vcWords(s string) []string {
	var words []string
	at := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] <= ' ' {
			if i > at {
				words = append(words, s[at:i])
			}
			at = i + 1
		}
	}
	return words
}
