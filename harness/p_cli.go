package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

func init() { props["C18"] = propCLI }

// tool runs the command line tool built from /repo.
func tool(k *K, stdin []byte, args ...string) (out, errs string, code int) {
	c := exec.Command(filepath.Join(os.Getenv("VERIF_TMP"), "scte35"), args...)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	c.Stdin = bytes.NewReader(stdin)
	c.Env = []string{"TZ=Asia/Kolkata", "PATH=/usr/bin:/bin"}
	k.T(1)
	err := c.Run()
	var xe *exec.ExitError
	if err != nil && !errors.As(err, &xe) {
		panic(err)
	}
	code = c.ProcessState.ExitCode()
	if strings.Contains(e.String(), "panic:") || strings.Contains(e.String(), "goroutine ") {
		k.Fail("scte35 %.300q panics: %.2000s", args, e.String())
	}
	return o.String(), e.String(), code
}

// decoded: stdout of decode in one format shows m.
func shown(k *K, format, out string, m *Sec) {
	k.Validated(1)
	switch format {
	case "json":
		v, err := jparse([]byte(out))
		if err != nil {
			k.Fail("--out=json prints %q: %v", out, err)
		}
		if g, w := jcanon("", v), jcanon("", jdoc(m)); g != w {
			k.Fail("--out=json shows another section: %s", diff(g, w))
		}
	case "xml":
		v, err := xparse([]byte(out))
		if err != nil {
			k.Fail("--out=xml prints %q: %v", out, err)
		}
		if g, w := v.canon(), xdoc(m).canon(); g != w {
			k.Fail("--out=xml shows another section: %s", diff(g, w))
		}
	default:
		w := m.onWire()
		_, sz := encodeSizes(w, encOpt{})
		want := tableRows(w, sz.section, sz.command, sz.loop, sz.desc)
		for i := range want {
			want[i].lvl = -1 // any indentation
		}
		var sb strings.Builder
		for _, l := range strings.Split(strings.TrimRight(out, "\n"), "\n") {
			sb.WriteString(tPrefix + strings.TrimLeft(l, "\t ") + "\n")
		}
		checkRows(k, sb.String(), want)
	}
}

// encodedAs reads what encode prints.
func encodedAs(k *K, out string) (b64, hx string) {
	for _, l := range strings.Split(out, "\n") {
		key, val, ok := strings.Cut(l, ":")
		switch strings.TrimSpace(key) {
		case "Base64":
			b64 = strings.TrimSpace(val)
		case "Hex":
			hx = strings.TrimSpace(val)
		case "":
			if ok {
				k.Fail("unexpected line %q", l)
			}
		default:
			k.Fail("unexpected line %q", l)
		}
	}
	return b64, strings.TrimPrefix(strings.ToLower(hx), "0x")
}

func encodes(k *K, what, out, errs string, w []byte) {
	b64, hx := encodedAs(k, out)
	k.Validated(1)
	if b64 != base64.StdEncoding.EncodeToString(w) || hx != hex.EncodeToString(w) || errs != "" {
		k.Fail("%s prints %q (stderr %q), want %x", what, out, errs, w)
	}
}

// oneLine: no string of m breaks a row of the table or begins with the indent.
func oneLine(m *Sec) bool {
	ok := func(s string) bool { return !strings.ContainsAny(s, "\n\r") }
	return textOK(m, ok, ok)
}

var formats = []string{"text", "json", "xml"}

func checkCLIDecode(k *K, cs Case) {
	m := cs.M.onWire()
	b := enc(m)
	k.State(b)
	k.Input("%x", b)
	b64 := base64.StdEncoding.EncodeToString(b)
	inputs := []string{b64, "0x" + hex.EncodeToString(b), "0x" + strings.ToUpper(hex.EncodeToString(b))}
	for i, in := range inputs {
		for j, f := range formats {
			if i == 2 && j > 0 || f == "json" && !jsonable(m) || f == "xml" && !xmlable(m) || f != "text" && len(m.Stuff) > 0 || f == "text" && !oneLine(m) {
				continue
			}
			args := []string{"decode", "--out=" + f, in}
			switch {
			case f == "text" && i == 0:
				args = []string{"decode", in}
			case i == 1:
				args = []string{"decode", in, "--out", f}
			}
			out, errs, code := tool(k, nil, args...)
			if errs != "" || code != 0 {
				k.Fail("%q: stderr %q, exit status %d", args, errs, code)
			}
			shown(k, f, out, m)
			if f == "text" || i != 0 {
				continue
			}
			// what decode prints is what encode takes
			o2, e2, _ := tool(k, []byte(out), "encode")
			encodes(k, "decode --out="+f+" | encode", o2, e2, b)
		}
	}
}

func checkCLIEncode(k *K, cs Case) {
	m := cs.M
	if len(m.Stuff) > 0 {
		return
	}
	w := enc(m.onWire())
	k.State(w)
	var docs []string
	if jsonable(m) {
		for _, st := range jstyles {
			docs = append(docs, st.render(jdoc(m)))
		}
		docs = append(docs, " \n\t"+jstyles[3].render(jdoc(m))+"\n\n", strings.ReplaceAll(jstyle{sp: "\n"}.render(jdoc(m)), "\n", "\r\n"))
	}
	if xmlable(m) {
		for _, st := range xstyles {
			docs = append(docs, st.render(xdoc(m)))
		}
		docs = append(docs, "\n <!-- c -->\n"+xstyles[0].render(xdoc(m))+"\n", attrGap.ReplaceAllString(xstyles[0].render(xdoc(m)), "\"\n$1"))
	}
	for _, d := range docs {
		k.Input("%s", d)
		out, errs, _ := tool(k, []byte(d), "encode")
		encodes(k, "encode < document", out, errs, w)
		if !strings.Contains(d, "\x00") {
			out, errs, _ = tool(k, nil, "encode", d)
			encodes(k, "encode document", out, errs, w)
		}
	}
}

// attrGap is the space before an attribute that is not the first.
var attrGap = regexp.MustCompile(`" ([A-Za-z]+=")`)

// checkCLILong: a document of any size, in one line or many.
func checkCLILong(k *K, n int) {
	k.StateS(fmt.Sprint(n))
	m := hdr(&CTime{p64(7)}, segBase(), &DPriv{9, 9, pat(40)})
	w := enc(m)
	j := jstyle{}.render(jdoc(m))
	x := xstyle{}.render(xdoc(m))
	i := strings.Index(j, ",")
	e := strings.Index(x, ">") + 1
	lines := min(n, 70000)
	for _, d := range []string{
		j[:i] + strings.Repeat(" ", n) + j[i:],
		j[:i] + strings.Repeat("\n", lines) + j[i:],
		j[:i] + strings.Repeat("                               \n", lines/32) + j[i:],
		j + strings.Repeat(" ", n),
		x[:e] + strings.Repeat(" ", n) + x[e:],
		x[:e] + "<!--" + strings.Repeat("c", n) + "-->" + x[e:],
		x[:e] + strings.Repeat("\n", lines) + x[e:],
		strings.Repeat("\n", lines) + x,
	} {
		k.Input("document padded with %d bytes: %.200s", n, d)
		out, errs, _ := tool(k, []byte(d), "encode")
		encodes(k, "encode < document", out, errs, w)
	}
}

// checkCLIBad: input the library rejects.
func checkCLIBad(k *K, x rawCase) {
	k.StateS(x.String())
	in := string(x.b)
	k.Input("%q", in)
	var s *scte35.SpliceInfoSection
	var err error
	if strings.HasPrefix(in, "0x") {
		s, err = scte35.DecodeHex(in)
	} else {
		s, err = scte35.DecodeBase64(in)
	}
	for _, f := range formats {
		out, errs, _ := tool(k, nil, "decode", "--out="+f, "--", in)
		k.Validated(1)
		if (errs == "") != (err == nil) {
			k.Fail("decode %q: stderr %q, but the library says %v", in, errs, err)
		}
		if err != nil && !strings.Contains(errs, err.Error()) {
			k.Fail("decode %q: stderr %q does not tell %q", in, errs, err)
		}
		// what was decoded is shown all the same
		var want []byte
		switch f {
		case "json":
			want, _ = json.Marshal(s)
			g, e1 := jparse([]byte(out))
			w, e2 := jparse(want)
			if e1 != nil || e2 != nil || jcanon("", g) != jcanon("", w) {
				k.Fail("decode --out=json %q shows %s, want %s", in, out, want)
			}
		case "xml":
			want, _ = xml.Marshal(s)
			g, e1 := xparse([]byte(out))
			w, e2 := xparse(want)
			if e1 != nil || e2 != nil || g.canon() != w.canon() {
				k.Fail("decode --out=xml %q shows %s, want %s", in, out, want)
			}
		default:
			if g, w := strings.Fields(out), strings.Fields(s.Table("", "\t")); strings.Join(g, " ") != strings.Join(w, " ") {
				k.Fail("decode %q shows %q, want %q", in, out, s.Table("", "\t"))
			}
		}
	}
}

func checkCLIBadEncode(k *K, x badDoc) {
	k.StateS(x.String())
	k.Input("%q", x.doc)
	run := func(stdin []byte, args ...string) {
		out, errs, _ := tool(k, stdin, args...)
		k.Validated(1)
		if strings.TrimSpace(out) != "" || strings.TrimSpace(errs) == "" {
			k.Fail("encode of a document that has no encoding prints %q, stderr %q", out, errs)
		}
	}
	run(x.doc, "encode")
	if !bytes.Contains(x.doc, []byte{0}) {
		run(nil, "encode", "--", string(x.doc))
	}
}

func propCLI(c *Ctx) {
	n := 1
	c.Assume("the wording of messages, and the exit status of decode for a signal it reports as bad, are not judged")
	sections := func(y yieldFn) bool {
		ok := shapes(n, y)
		if !c.Thorough {
			return ok && stuffedFew(y)
		}
		return ok && stuffedFew(y) && segTypes(y)
	}
	ExploreCases(c, "decode", sections, checkCLIDecode)
	ExploreCases(c, "sizes", func(y yieldFn) bool {
		st, i := 61, 0
		if c.Thorough {
			st = 7
		}
		return everyLength(func(cs Case) bool {
			i++
			if len(cs.M.Stuff) > 0 || i%st != 1 && i < 4062 {
				return true
			}
			return y(cs)
		})
	}, checkCLIDecode)
	ExploreCases(c, "encode", func(y yieldFn) bool {
		return mutBases(func(cs Case) bool {
			if cs.M.Cmd != nil {
				cs.M.PTSAdj, cs.M.PreRoll = 5, 40
			}
			return y(cs)
		})
	}, checkCLIEncode)
	// text of UPIDs, DTMF characters, ISO codes
	ExploreCases(c, "text", func(y yieldFn) bool {
		i := 0
		return textCases(func(cs Case) bool {
			if i++; !c.Thorough && i%3 != 0 {
				return true
			}
			return y(cs)
		})
	}, func(k *K, cs Case) {
		checkCLIDecode(k, cs)
		checkCLIEncode(k, cs)
	})
	Explore(c, "long", func(y func(int) bool) {
		for _, n := range []int{0, 1, 100, 4000, 4095, 4096, 4097, 32768, 65000, 65535, 65536, 65537, 70000, 131072, 1 << 20, 5 << 20} {
			if !y(n) {
				return
			}
		}
	}, func(n int) string { return fmt.Sprintf("padding of %d bytes", n) }, checkCLILong)
	Explore(c, "bad-signals", func(y func(rawCase) bool) {
		b := enc(hdr(&CTime{p64(7)}, segBase(), &DAvail{3}))
		put := func(name string, s string) bool { return y(rawCase{name, []byte(s)}) }
		for i := 0; i <= len(b); i++ {
			for v := 0; v < 2; v++ {
				x := cp(b[:i])
				if v == 1 {
					putCRC(x)
				}
				if !put("cut", base64.StdEncoding.EncodeToString(x)) || !put("cut", "0x"+hex.EncodeToString(x)) {
					return
				}
			}
		}
		for i := range b {
			for _, v := range []byte{1, 0x80} {
				x := cp(b)
				x[i] ^= v
				if !put("flipped", base64.StdEncoding.EncodeToString(x)) {
					return
				}
				putCRC(x)
				if !put("flipped, CRC made right", "0x"+hex.EncodeToString(x)) {
					return
				}
			}
		}
		s := base64.StdEncoding.EncodeToString(b)
		for i := 0; i < len(s); i++ {
			if !put("base64 cut", s[:i]) || !put("base64 character", s[:i]+"*"+s[i+1:]) {
				return
			}
		}
		h := hex.EncodeToString(b)
		for i := 0; i < len(h); i++ {
			if !put("hex cut", "0x"+h[:i]) || !put("hex character", "0x"+h[:i]+"g"+h[i+1:]) {
				return
			}
		}
		// other forms of sections of several lengths
		for n := 0; n <= 240; n += 24 {
			b := enc(hdr(&CTime{p64(7)}, segBase(), &DPriv{3, 9, pat(n)}))
			h, s := hex.EncodeToString(b), base64.StdEncoding.EncodeToString(b)
			for _, x := range []string{h, strings.ToUpper(h), "0X" + h, "#" + h, h + "h", "0x" + strings.ToUpper(h), base64.RawStdEncoding.EncodeToString(b),
				base64.URLEncoding.EncodeToString(b), " " + s, s + " ", "0x" + s, "base64:" + s, "data:;base64," + s, "\"" + s + "\"", s + s, "0x" + h + h, s[:len(s)/2] + " " + s[len(s)/2:]} {
				if !put("another form", x) {
					return
				}
			}
		}
		for _, s := range []string{"", " ", "x", "0x", "0X" + h, h, "0x0x" + h, "/", "====", "0x " + h, "-", "--out", "{}"} {
			if !put("other", s) {
				return
			}
		}
	}, rawCase.String, checkCLIBad)
	Explore(c, "bad-documents", func(y func(badDoc) bool) {
		m := hdr(&CTime{p64(7)}, segBase(), &DAvail{3})
		j, x := jstyle{}.render(jdoc(m)), xstyle{}.render(xdoc(m))
		for i := 0; i < len(j); i++ {
			if !y(badDoc{"cut", []byte(j[:i]), false, true}) {
				return
			}
		}
		for i := 0; i < len(x); i++ {
			if !y(badDoc{"cut", []byte(x[:i]), true, true}) {
				return
			}
		}
		for _, d := range []string{"x", "[]", "null", `"x"`, "1", base64.StdEncoding.EncodeToString(enc(m)), "{}}", "{}{}", "{} x", "{},", "{}]", "{}\n{}", "\xEF\xBB\xBF{}", `{"tier":"x"}`, "<", "</a>", "<SpliceInfoSection><x/></SpliceInfoSection>"} {
			if !y(badDoc{"other", []byte(d), false, true}) {
				return
			}
		}
		// something beside the document
		for _, t := range []string{"x", "}", "{}", ",", "]", "0", "null", "\x00", j, x, base64.StdEncoding.EncodeToString(enc(m))} {
			for _, sep := range []string{"", " ", "\n"} {
				if !y(badDoc{"with something after it", []byte(j + sep + t), false, true}) {
					return
				}
			}
		}
		// sections which do not fit are not printed
		for _, m := range []*Sec{hdr(&CTime{p64(1)}, &DPriv{9, 9, pat(300)}), hdr(&CPriv{Ident: 1, Bytes: pat(5000)}), hdr(&CTime{p64(1)}, &DDTMF{1, "12345678"})} {
			if !y(badDoc{"too big", []byte(jstyle{}.render(jdoc(m))), false, true}) || !y(badDoc{"too big", []byte(xstyle{}.render(xdoc(m))), true, true}) {
				return
			}
		}
	}, badDoc.String, checkCLIBadEncode)
	// sections that fit, and those that do not (counts and lengths at, below and
	// above their limits, or no command)
	ExploreCases(c, "limits", func(y yieldFn) bool {
		i, st := 0, 241
		if c.Thorough {
			st = 31
		}
		every := func(cs Case) bool {
			if i++; i%st != 0 {
				return true
			}
			return y(cs)
		}
		if !limitCases(c.Thorough, every) || !limitPlaces(c.Thorough, every) {
			return false
		}
		return mutBases(func(cs Case) bool {
			m := cloneM(cs.M)
			m.Cmd, m.Stuff = nil, nil
			return y(Case{cs.Name + " without its command", m})
		})
	}, func(k *K, cs Case) {
		m := cs.M
		if m.Cmd != nil && representable(m) {
			checkCLIEncode(k, cs)
			return
		}
		if jsonable(m) {
			checkCLIBadEncode(k, badDoc{cs.Name, []byte(jstyle{}.render(jdoc(m))), false, true})
		}
		if xmlable(m) {
			checkCLIBadEncode(k, badDoc{cs.Name, []byte(xstyle{}.render(xdoc(m))), true, true})
		}
	})
	// calls with the wrong number of parameters
	good := base64.StdEncoding.EncodeToString(enc(hdr(&CNull{})))
	Explore(c, "usage", func(y func([]string) bool) {
		for _, a := range [][]string{{"decode"}, {"decode", good, good}, {"decode", "--out=json"}, {"decode", good, good, good}, {"encode", "{}", "{}"}, {"nosuch", good}, {"decode", "--nosuch", good}, {"encode", "--nosuch", "{}"}} {
			if !y(a) {
				return
			}
		}
	}, func(a []string) string { return strings.Join(a, " ") }, func(k *K, a []string) {
		k.StateS(strings.Join(a, " "))
		out, errs, code := tool(k, []byte("{}"), a...)
		k.Validated(1)
		if code == 0 || errs == "" || strings.Contains(out, "Base64:") || strings.Contains(out, "splice_info_section") {
			k.Fail("exit status %d, stdout %q, stderr %q", code, out, errs)
		}
	})
}
