package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/direct-connect/go-dc/adc"
	"github.com/direct-connect/go-dc/nmdc"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- F01

// a small universe, so that sets overlap
var feaPool = []adc.Feature{
	adc.FeaBASE, adc.FeaTIGR, adc.FeaPING, adc.FeaUCM0, adc.FeaTCP4, {'X', 'X', 'X', 'X'}, {'A', 'D', 'A', 'D'}, {'R', 'M', 'R', 'M'},
	// near misses of the ones above: another character, another order, another case
	{'B', 'A', 'S', '0'}, {'Z', 'A', 'S', 'E'}, {'T', 'C', 'P', '6'}, {'t', 'i', 'g', 'r'}, {'P', 'I', 'G', 'N'}, {'U', 'C', 'M', 'D'}, {'U', 'C', '0', '0'},
}

// drawFea draws a feature; the first few are more likely, so that sets share some.
func drawFea(t *rapid.T) adc.Feature {
	n := len(feaPool)
	if pick(t, "few", 2) == 0 {
		n = 6
	}
	return feaPool[pick(t, "feature", n)]
}

type modModel map[adc.Feature]bool

func (m modModel) clone() modModel {
	o := modModel{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

type modSet struct {
	f     adc.ModFeatures
	model modModel
}

func drawMod(t *rapid.T) modSet {
	s := modSet{model: modModel{}}
	if pick(t, "nil", 8) == 0 {
		return s
	}
	s.f = adc.ModFeatures{}
	for n := pick(t, "size", 6); n > 0; n-- {
		k, v := drawFea(t), pick(t, "add", 3) != 0
		s.f[k], s.model[k] = v, v
	}
	return s
}

func (s modSet) diff() string {
	if len(s.f) != len(s.model) {
		return fmt.Sprintf("%v instead of %v", s.f, s.model)
	}
	for k, v := range s.model {
		if got, ok := s.f[k]; !ok || got != v {
			return fmt.Sprintf("%v instead of %v", s.f, s.model)
		}
	}
	for _, k := range feaPool {
		v, in := s.model[k]
		// whether a feature that was removed explicitly counts as set is left open
		if got := s.f.IsSet(k); (v && !got) || (!in && got) {
			return fmt.Sprintf("IsSet(%v) of %v is %v", k, s.model, got)
		}
	}
	return ""
}

func TestF01_ModFeatures(t *testing.T) {
	check(t, 2500, "at least two sets that share a feature and differ in another", func(c *C) {
		var live []modSet
		for n := 2 + pick(c.T, "sets", 2); n > 0; n-- {
			live = append(live, drawMod(c.T))
		}
		verify := func(what string) {
			for i, s := range live {
				if d := s.diff(); d != "" {
					c.Fatalf("after %s set %d is %s", what, i, d)
				}
			}
		}
		verify("creation")
		share, differ := false, false
		for k := range live[0].model {
			if _, ok := live[1].model[k]; ok {
				share = true
			} else {
				differ = true
			}
		}
		c.NonTrivial(share && differ)
		for n := 1 + pick(c.T, "ops", 8); n > 0; n-- {
			i, j := pick(c.T, "i", len(live)), pick(c.T, "j", len(live))
			a, b := live[i], live[j]
			var op string
			switch pick(c.T, "op", 7) {
			case 0:
				op = fmt.Sprintf("Clone(%d)", i)
				live = append(live, modSet{a.f.Clone(), a.model.clone()})
			case 1:
				op = fmt.Sprintf("SetFrom(%d, %d)", i, j)
				m := a.model.clone()
				for k, v := range b.model {
					m[k] = v
				}
				live = append(live, modSet{a.f.SetFrom(b.f), m})
			case 2:
				op = fmt.Sprintf("Intersect(%d, %d)", i, j)
				m := modModel{}
				for k, v := range a.model {
					if v && b.model[k] {
						m[k] = true
					}
				}
				live = append(live, modSet{a.f.Intersect(b.f), m})
			case 3:
				op = fmt.Sprintf("Join(%d)", i)
				var want []string
				for k, v := range a.model {
					if v {
						want = append(want, k.String())
					}
				}
				got := []string{}
				if s := a.f.Join(); s != "" {
					got = strings.Split(s, ",")
				}
				sort.Strings(want)
				sort.Strings(got)
				if !sameStrings(got, want) {
					c.Fatalf("Join of %v is %q", a.model, got)
				}
			case 4: // change one, none of the others may follow
				if a.f == nil {
					continue
				}
				k, v := drawFea(c.T), pick(c.T, "add", 2) == 0
				op = fmt.Sprintf("[%d][%v] = %v", i, k, v)
				a.f[k], a.model[k] = v, v
			case 5:
				if a.f == nil {
					continue
				}
				k := drawFea(c.T)
				op = fmt.Sprintf("delete([%d], %v)", i, k)
				delete(a.f, k)
				delete(a.model, k)
			default: // over the wire
				op = fmt.Sprintf("send(%d)", i)
				var buf bytes.Buffer
				if err := a.f.MarshalADC(&buf); err != nil {
					c.Fatalf("encoding %v: %v", a.model, err)
				}
				var got adc.ModFeatures
				if err := got.UnmarshalADC(buf.Bytes()); err != nil {
					c.Fatalf("decoding %q: %v", buf.Bytes(), err)
				}
				live = append(live, modSet{got, a.model.clone()})
			}
			c.Key("%s ", op)
			verify(op)
			if len(live) > 12 {
				break
			}
		}
		c.Key("%v", live[0].model)
	})
}

func TestF01_Negotiation(t *testing.T) {
	check(t, 1200, "a feature is announced and later taken back, or the other way around", func(c *C) {
		var sent []modSet
		var net bytes.Buffer
		w := adc.NewWriter(&net)
		state := modModel{}
		flip := false
		for n := 1 + pick(c.T, "updates", 6); n > 0; n-- {
			s := drawMod(c.T)
			sent = append(sent, s)
			for k, v := range s.model {
				if old, ok := state[k]; ok && old != v {
					flip = true
				}
				state[k] = v
			}
			c.Key("%v ", s.model)
			if err := w.WriteHub(adc.Supported{Features: s.f}); err != nil {
				c.Fatalf("sending %v: %v", s.model, err)
			}
		}
		c.NonTrivial(flip)
		if err := w.Flush(); err != nil {
			c.Fatalf("flush: %v", err)
		}
		r := adc.NewReader(drawEOFReader(c.T, net.Bytes()))
		var got adc.ModFeatures
		for i, s := range sent {
			p, err := r.ReadPacket()
			if err != nil {
				c.Fatalf("announcement %d: %v", i, err)
			}
			if err := p.DecodeMessage(); err != nil {
				c.Fatalf("announcement %d: %v", i, err)
			}
			var f adc.ModFeatures
			switch m := p.Message().(type) {
			case adc.Supported:
				f = m.Features
			case *adc.Supported:
				f = m.Features
			default:
				c.Fatalf("announcement %d arrives as %T", i, m)
			}
			if d := (modSet{f, s.model}).diff(); d != "" {
				c.Fatalf("announcement %d arrives as %s", i, d)
			}
			got = got.SetFrom(f)
		}
		if d := (modSet{got, state}).diff(); d != "" {
			c.Fatalf("after %d announcements the receiver's set is %s", len(sent), d)
		}
	})
}

func TestF01_FeatureLists(t *testing.T) {
	check(t, 2000, "a list of at least two features", func(c *C) {
		var list adc.ExtFeatures
		for n := pick(c.T, "size", 6); n > 0; n-- {
			list = append(list, drawFea(c.T))
		}
		c.Key("%v", list)
		c.NonTrivial(len(list) > 1)
		orig := append(adc.ExtFeatures{}, list...)
		var buf bytes.Buffer
		if err := list.MarshalADC(&buf); err != nil {
			c.Fatalf("encoding %v: %v", list, err)
		}
		got := adc.ExtFeatures{{'O', 'L', 'D', '0'}}
		if err := got.UnmarshalADC(append([]byte{}, buf.Bytes()...)); err != nil {
			c.Fatalf("decoding %q: %v", buf.Bytes(), err)
		}
		if len(got) != len(orig) || len(got) > 0 && !reflect.DeepEqual(got, orig) {
			c.Fatalf("%v is encoded as %q and decoded as %v", orig, buf.Bytes(), got)
		}
		for _, k := range append(feaPool, adc.Feature{'O', 'L', 'D', '0'}, adc.Feature{}) {
			in := false
			for _, v := range orig {
				in = in || v == k
			}
			if list.Has(k) != in || got.Has(k) != in {
				c.Fatalf("Has(%v) of %v is %v (%v after decoding)", k, orig, list.Has(k), got.Has(k))
			}
		}
	})
}

func TestF01_AddFeatures(t *testing.T) {
	check(t, 800, "at least two features", func(c *C) {
		var list adc.AddFeatures
		var parts []string
		model := modModel{}
		for n := pick(c.T, "size", 6); n > 0; n-- {
			f := drawFea(c.T)
			list = append(list, f.String())
			parts = append(parts, "AD"+f.String())
			model[f] = true
		}
		c.Key("%v", list)
		c.NonTrivial(len(list) > 1)
		buf := bytes.NewBufferString("kept ")
		if err := list.MarshalADC(buf); err != nil {
			c.Fatalf("encoding %v: %v", list, err)
		}
		if got := buf.String(); got != "kept "+strings.Join(parts, " ") {
			c.Fatalf("%v is encoded as %q", list, got)
		}
		var got adc.ModFeatures
		if err := got.UnmarshalADC(buf.Bytes()[5:]); err != nil {
			c.Fatalf("decoding %q: %v", buf.Bytes()[5:], err)
		}
		if d := (modSet{got, model}).diff(); d != "" {
			c.Fatalf("%v arrives as %s", list, d)
		}
	})
}

var extPool = []string{nmdc.ExtNoHello, nmdc.ExtTTHSearch, nmdc.ExtZPipe0, nmdc.ExtTLS, nmdc.ExtUserIP2, "Custom1", "custom1", "Z", ""}

type extSet struct {
	f     nmdc.Extensions
	model map[string]bool
}

func (s extSet) diff() string {
	want := []string{}
	for _, k := range extPool {
		if s.model[k] {
			want = append(want, k)
		}
		if s.f.Has(k) != s.model[k] {
			return fmt.Sprintf("Has(%q) is %v", k, s.f.Has(k))
		}
	}
	got := s.f.List()
	if !sort.StringsAreSorted(got) {
		return fmt.Sprintf("List is not sorted: %q", got)
	}
	sort.Strings(want)
	if !sameStrings(got, want) || len(s.f) != len(want) {
		return fmt.Sprintf("%q instead of %q", got, want)
	}
	return ""
}

func TestF01_Extensions(t *testing.T) {
	check(t, 2500, "at least two sets that share an extension and differ in another", func(c *C) {
		var live []extSet
		for n := 2 + pick(c.T, "sets", 2); n > 0; n-- {
			s := extSet{f: nmdc.Extensions{}, model: map[string]bool{}}
			for n := pick(c.T, "size", 6); n > 0; n-- {
				k := extPool[pick(c.T, "ext", len(extPool))]
				s.f.Set(k)
				s.model[k] = true
			}
			live = append(live, s)
		}
		share, differ := false, false
		for k := range live[0].model {
			share = share || live[1].model[k]
			differ = differ || !live[1].model[k]
		}
		c.NonTrivial(share && differ)
		drawList := func() (out []string) {
			for n := pick(c.T, "list", 7); n > 0; n-- {
				out = append(out, extPool[pick(c.T, "ext", len(extPool))])
			}
			return
		}
		both := func(a map[string]bool, b []string) map[string]bool {
			m := map[string]bool{}
			for _, k := range b {
				if a[k] {
					m[k] = true
				}
			}
			return m
		}
		keys := func(m map[string]bool) (out []string) {
			for k, v := range m {
				if v {
					out = append(out, k)
				}
			}
			return
		}
		verify := func(op string) {
			for i, s := range live {
				if d := s.diff(); d != "" {
					c.Fatalf("after %s set %d: %s", op, i, d)
				}
			}
		}
		verify("creation")
		for n := 1 + pick(c.T, "ops", 8); n > 0 && len(live) < 12; n-- {
			i, j := pick(c.T, "i", len(live)), pick(c.T, "j", len(live))
			a, b := live[i], live[j]
			var op string
			switch pick(c.T, "op", 6) {
			case 0:
				k := extPool[pick(c.T, "ext", len(extPool))]
				op = fmt.Sprintf("[%d].Set(%q)", i, k)
				a.f.Set(k)
				a.model[k] = true
			case 1:
				k := extPool[pick(c.T, "ext", len(extPool))]
				op = fmt.Sprintf("delete([%d], %q)", i, k)
				delete(a.f, k)
				delete(a.model, k)
			case 2:
				op = fmt.Sprintf("Clone(%d)", i)
				live = append(live, extSet{a.f.Clone(), both(a.model, keys(a.model))})
			case 3:
				op = fmt.Sprintf("Intersect(%d, %d)", i, j)
				live = append(live, extSet{a.f.Intersect(b.f), both(a.model, keys(b.model))})
			case 4:
				l := drawList()
				op = fmt.Sprintf("IntersectList(%d, %q)", i, l)
				orig := append([]string{}, l...)
				live = append(live, extSet{a.f.IntersectList(l), both(a.model, l)})
				if !sameStrings(orig, l) {
					c.Fatalf("IntersectList(%q) changed its argument to %q", orig, l)
				}
			default:
				l := a.f.List()
				op = fmt.Sprintf("change List(%d)", i)
				for i := range l {
					l[i] = "changed"
				}
			}
			c.Key("%s ", op)
			verify(op)
		}
	})
}

func TestF01_Supports(t *testing.T) {
	check(t, 2500, "both lists have extensions, some but not all of them common", func(c *C) {
		draw := func() (out []string) {
			for n := pick(c.T, "list", 7); n > 0; n-- {
				if k := extPool[pick(c.T, "ext", len(extPool))]; k != "" {
					out = append(out, k)
				}
			}
			return
		}
		a, b := draw(), draw()
		c.Key("%q %q", a, b)
		want := map[string]bool{}
		inA := map[string]bool{}
		for _, k := range a {
			inA[k] = true
		}
		for _, k := range b {
			if inA[k] {
				want[k] = true
			}
		}
		c.NonTrivial(len(want) > 0 && len(want) < len(a))
		// b arrives over the wire
		var buf bytes.Buffer
		if err := (&nmdc.Supports{Ext: append([]string{}, b...)}).MarshalNMDC(nil, &buf); err != nil {
			c.Fatalf("encoding %q: %v", b, err)
		}
		var mb nmdc.Supports
		if err := mb.UnmarshalNMDC(nil, buf.Bytes()); err != nil {
			c.Fatalf("decoding %q: %v", buf.Bytes(), err)
		}
		ma := nmdc.Supports{Ext: append([]string{}, a...)}
		got := ma.Intersect(&mb)
		if !sameStrings(ma.Ext, a) || !sameStrings(mb.Ext, b) {
			c.Fatalf("the intersection of %q and %q changed them to %q and %q", a, b, ma.Ext, mb.Ext)
		}
		seen := map[string]bool{}
		for _, k := range got.Ext {
			seen[k] = true
		}
		if !reflect.DeepEqual(seen, want) {
			c.Fatalf("the intersection of %q and %q is %q", a, b, got.Ext)
		}
		for i := range got.Ext {
			got.Ext[i] = "changed"
		}
		if !sameStrings(ma.Ext, a) || !sameStrings(mb.Ext, b) {
			c.Fatalf("changing the intersection of %q and %q changed them to %q and %q", a, b, ma.Ext, mb.Ext)
		}
		// the set built from the list agrees
		e := nmdc.Extensions{}
		for _, k := range a {
			e.Set(k)
		}
		if l := e.IntersectList(b).List(); len(l) != len(want) {
			c.Fatalf("as sets, the intersection of %q and %q is %q", a, b, l)
		}
	})
}

// segaGroups is the table of the SEGA extension.
var segaGroups = []struct {
	group adc.ExtGroup
	exts  string
}{
	{adc.ExtAudio, "ape flac m4a mid mp3 mpc ogg ra wav wma"},
	{adc.ExtArch, "7z ace arj bz2 gz lha lzh rar tar tz z zip"},
	{adc.ExtDoc, "doc docx htm html nfo odf odp ods odt pdf ppt pptx rtf txt xls xlsx xml xps"},
	{adc.ExtExe, "app bat cmd com dll exe jar msi ps1 vbs wsf"},
	{adc.ExtImage, "bmp cdr eps gif ico img jpeg jpg png ps psd sfw tga tif webp"},
	{adc.ExtVideo, "3gp asf asx avi divx flv mkv mov mp4 mpeg mpg ogm pxp qt rm rmvb swf vob webm wmv"},
}

func TestF01_ExtGroups(t *testing.T) {
	all := map[string]adc.ExtGroup{}
	var names []string
	for _, g := range segaGroups {
		for _, e := range strings.Fields(g.exts) {
			all[e] = g.group
			names = append(names, e)
		}
	}
	check(t, 6000, "a search for some, not all categories", func(c *C) {
		g := adc.ExtGroup(pick(c.T, "group", 64))
		var ext string
		switch pick(c.T, "extKind", 4) {
		case 0: // not in any category
			ext = rapid.SampledFrom([]string{"", "mp", "mp33", "go", "torrent", "iso", "doc~", " mp3", "mp3 ", "xmp3", "mp3/x", "0", "zip_", "tiff", "7"}).Draw(c.T, "other")
		default:
			ext = names[pick(c.T, "ext", len(names))]
		}
		want := g == 0 || g&all[ext] != 0
		name := mixCase(c.T, ext)
		if pick(c.T, "full", 3) != 0 {
			prefix := rapid.SampledFrom([]string{"", "a", "file.zip", "my.video.mp4", "dir/x", "a b", "Ä", "..", "mp3", "x.7z.TAR", "\x80"}).Draw(c.T, "name")
			name = prefix + "." + name
		}
		c.Key("%q in %x", name, int(g))
		c.Label("match=%v", want)
		c.NonTrivial(g != 0 && g != 63)
		if got := g.Matches(name); got != want {
			c.Fatalf("group %#x matches %q: %v", int(g), name, got)
		}
		for _, s := range segaGroups {
			if g.Has(s.group) != (g&s.group != 0) {
				c.Fatalf("group %#x has %#x: %v", int(g), int(s.group), g.Has(s.group))
			}
		}
	})
}
