// P02: event text encoding is lossless and canonical.
package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/conv"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/spec"
	"github.com/UoY-RoboStar/rtcg/internal/zzverif/words"
)

func decode(into *testlang.Event, text string) (ok bool, panicked string) {
	var err error
	panicked = mc.Catch(func() { err = into.UnmarshalText([]byte(text)) })
	return err == nil && panicked == "", panicked
}

func encode(e testlang.Event) (string, error) {
	var (
		bs  []byte
		err error
	)
	if p := mc.Catch(func() { bs, err = e.MarshalText() }); p != "" {
		return "", fmt.Errorf("panic: %s", p)
	}
	return string(bs), err
}

// text checks what one text decodes to, and that the result is canonical from then on.
func text(r *mc.R, s string, acc, rej *int64) {
	want, wantOK := spec.ParseEvent(s)
	var got testlang.Event
	ok, p := decode(&got, s)
	sig := fmt.Sprintf("decode %q", s)
	if p != "" || ok != wantOK {
		r.Violate(sig, fmt.Sprintf("accepted=%v, should be %v (%v) %s", ok, wantOK, got.String(), p), s)
		return
	}
	if !ok {
		*rej++
		return
	}
	*acc++
	if g := conv.Ev(got); g != want {
		r.Violate(sig, fmt.Sprintf("decoded to %s, should be %s", g.Key(), want.Key()), s)
		return
	}
	enc, err := encode(got)
	if err != nil || enc != want.Text() {
		r.Violate(sig, fmt.Sprintf("encodes as %q (%v), should be %q", enc, err, want.Text()), s)
		return
	}
	var again testlang.Event
	if ok, p := decode(&again, enc); !ok || p != "" || !reflect.DeepEqual(again, got) || !again.Equals(got) {
		r.Violate(sig, fmt.Sprintf("re-decoding %q: ok=%v %s gives %s instead of %s", enc, ok, p, conv.Ev(again).Key(), want.Key()), s)
	}
}

func main() { mc.Main("P02", run) }

func run(r *mc.R) {
	chans := []string{"a", "A", "b", "ab", "a b", "ä", "世", "_", "7", "-7", "in", "out", "a:b", "a,b", "a\"b", "a#", "{|x|}", "a\\n", "<&>", "int!7", "(empty channel)", "a\tb", "aa", "\u00df"}
	vals := []spec.Val{spec.None()}
	for _, i := range []int64{0, 1, -1, 2, 7, -7, 10, 42, 255, 256, 65535, 65536, 1 << 31, 1<<31 - 1, -1 << 31, -1<<31 - 1, 1 << 32, 1<<32 - 1, 1<<53 + 1, -(1<<53 + 1), 1<<63 - 1, -1 << 63, 1<<63 - 2, -1<<63 + 1, 1e18, 123456789012345678} {
		vals = append(vals, spec.IntV(i))
	}
	for _, s := range []string{"", ".", "..", "a", "A", "a.b", ".a", "a.", "Ok", "ok", "{| percentage=1, x=2 |}", "9223372036854775808", "-9223372036854775809", "0x10", "1_000", "1e3", "1.5", "7.", "--1", "+", "-", "true", "nil", "null", "()", "int!7", "enum!\"a\"", "a b", "a\tb", "\"q\"", "\\", "'", "<&>", "ä", "世界", "𝒳", "a\nb", "٣", "a:b", "a,b", "#", "in", "(empty value)"} {
		vals = append(vals, spec.EnumV(s))
	}
	// 1. Every event of the domain: encode, decode, encode.
	var evs []spec.Ev
	for _, c := range chans {
		for k := 0; k < 3; k++ {
			for _, v := range vals {
				evs = append(evs, spec.Ev{Chan: c, Kind: k, Val: v})
			}
		}
	}
	// The words of the sources are channels and values too.
	base := len(evs)
	dict, _ := words.Source(r)
	for _, d := range dict {
		for _, d := range []string{d, strings.ToUpper(d)} {
			if strings.TrimSpace(d) != d {
				continue
			}
			for k := 0; k < 3; k++ {
				evs = append(evs, spec.Ev{Chan: "a", Kind: k, Val: spec.ParseVal(d)})
				if !strings.Contains(d, ".") {
					evs = append(evs, spec.Ev{Chan: d, Kind: k}, spec.Ev{Chan: d, Kind: k, Val: spec.IntV(-1)}, spec.Ev{Chan: d, Kind: k, Val: spec.ParseVal(d)})
				}
			}
		}
	}
	reals := make([]testlang.Event, len(evs))
	var dirty []testlang.Event // destinations that held something before
	for _, d := range []string{"q.out.5", "q.in.Enum", "q.call"} {
		var e testlang.Event
		if ok, _ := decode(&e, d); ok {
			dirty = append(dirty, e)
		}
	}
	for i, e := range evs {
		reals[i] = conv.RealEv(e)
		sig := fmt.Sprintf("event %s", e.Key())
		enc, err := encode(reals[i])
		if err != nil || enc != e.Text() {
			r.Violate(sig, fmt.Sprintf("encodes as %q (%v), should be %q", enc, err, e.Text()), nil)
			continue
		}
		var back testlang.Event
		ok, p := decode(&back, enc)
		if !ok || p != "" || conv.Ev(back) != e || !back.Equals(reals[i]) || !reals[i].Equals(back) {
			r.Violate(sig, fmt.Sprintf("decodes from %q to %s (ok=%v) %s", enc, conv.Ev(back).Key(), ok, p), nil)
			continue
		}
		if enc2, err := encode(back); err != nil || enc2 != enc {
			r.Violate(sig, fmt.Sprintf("re-encodes as %q (%v) instead of %q", enc2, err, enc), nil)
		}
		for _, d := range dirty {
			into := d
			if ok, p := decode(&into, enc); !ok || p != "" || conv.Ev(into) != e {
				r.Violate(sig+" into "+conv.Ev(d).Key(), fmt.Sprintf("decodes to %s when the destination held another event before", conv.Ev(into).Key()), nil)
			}
		}
		// The same through JSON, by value and by pointer, as the interchange files do.
		js, err := json.Marshal(&reals[i])
		var viaJSON *testlang.Event
		if err != nil || json.Unmarshal(js, &viaJSON) != nil || viaJSON == nil || conv.Ev(*viaJSON) != e {
			r.Violate(sig+" json", fmt.Sprintf("JSON form %s (%v) does not carry the event", js, err), nil)
		}
		// The channel alone.
		var ch, chBack channel.Channel
		ch = reals[i].Channel
		if ct, err := ch.MarshalText(); err != nil || string(ct) != (spec.Ev{Chan: e.Chan, Kind: e.Kind}).Text() || chBack.UnmarshalText(ct) != nil || chBack != ch || !chBack.Equals(ch) {
			r.Violate(sig+" channel", fmt.Sprintf("channel encodes as %q (%v) and decodes to %v", ct, err, chBack), nil)
		}
		// The value alone.
		if e.Val.Present {
			v := reals[i].Value
			vt, err := v.MarshalText()
			var vb value.Value
			if err != nil || string(vt) != e.Val.Text() || vb.UnmarshalText(vt) != nil || conv.Val(vb) != e.Val {
				r.Violate(sig+" value", fmt.Sprintf("value encodes as %q (%v) and decodes to %v", vt, err, vb.String()), nil)
			}
		}
		if i%997 == 0 {
			r.Sample("%s <-> %q", e.Key(), enc)
		}
	}
	n := int64(len(evs))
	r.States.Add(n)
	r.Transitions.Add(n * 2)
	r.Validated.Add(n)
	r.OutcomeN("events_round_tripped", n)

	for i := base; i < len(evs); i++ {
		for j := i + 1; j < len(evs) && j < i+30; j++ {
			if reals[i].Equals(reals[j]) != (evs[i] == evs[j]) {
				r.Violate(fmt.Sprintf("equal %s / %s", evs[i].Key(), evs[j].Key()), fmt.Sprintf("said to be equal: %v", evs[i] != evs[j]), nil)
			}
		}
	}
	evs, reals = evs[:base:base], reals[:base:base]

	// 2. Equality of every pair, also with values that no text gives (constants written like numbers, or padded).
	decodable := len(evs)
	for _, v := range []string{"0", "1", "-1", "7", "-7", "+7", "07", "42", "9223372036854775807", "-9223372036854775808", " a", "a ", " "} {
		for _, c := range []string{"a", "A", "ab"} {
			for k := 0; k < 3; k++ {
				e := spec.Ev{Chan: c, Kind: k, Val: spec.EnumV(v)}
				evs = append(evs, e)
				reals = append(reals, conv.RealEv(e))
			}
		}
	}
	n = int64(len(evs))
	mc.Par(len(evs), func(i int) {
		for j := range evs {
			want := evs[i] == evs[j]
			if reals[i].Equals(reals[j]) != want {
				r.Violate(fmt.Sprintf("equal %s / %s", evs[i].Key(), evs[j].Key()), fmt.Sprintf("said to be equal: %v", !want), nil)
			}
			if reals[i].Channel.Equals(reals[j].Channel) != (evs[i].Chan == evs[j].Chan && evs[i].Kind == evs[j].Kind) {
				r.Violate(fmt.Sprintf("channel equal %s / %s", evs[i].Key(), evs[j].Key()), "wrong channel equality", nil)
			}
			if reals[i].Value.Equals(reals[j].Value) != (evs[i].Val == evs[j].Val) {
				r.Violate(fmt.Sprintf("value equal %s / %s", evs[i].Key(), evs[j].Key()), "wrong value equality", nil)
			}
		}
	})
	r.OutcomeN("pairs_compared", n*n)
	r.Transitions.Add(n * n)
	// Equality must not depend on how the value was made: constructed against decoded.
	for i, e := range evs[:decodable] {
		var back testlang.Event
		if ok, _ := decode(&back, e.Text()); ok && !(back.Equals(reals[i]) && reals[i].Equals(back)) {
			r.Violate("decoded equal "+e.Key(), "decoded event differs from the constructed one", nil)
		}
	}

	// 2b. Long names and constants, of all lengths near powers of two.
	for b := uint(5); b <= 17; b++ {
		for _, n := range []int{1<<b - 1, 1 << b, 1<<b + 1} {
			var acc, rej int64
			for _, unit := range []string{"x", "é", "a b", "7", "_"} {
				l := strings.Repeat(unit, n/len(unit)+1)[:n]
				if unit == "é" {
					l = strings.Repeat(unit, n/2)
				}
				l = strings.TrimSpace(l)
				for _, t := range []string{"a.in." + l, l + ".out.1", "a.call." + l + "z", l + ".in", l + "." + "in." + l, "a.in." + strings.Repeat(" ", n) + "x", strings.Repeat(" ", n) + "a.in.x", "a.in.x" + strings.Repeat(" ", n)} {
					text(r, t, &acc, &rej)
				}
			}
			r.OutcomeN("long texts", acc+rej)
		}
	}

	// 3. Every short text: rejected or canonical.
	var dacc, drej int64
	for _, d := range dict {
		for _, t := range []string{d, d + ".in", "a." + d, "a.in." + d, d + ".OUT." + d, "a." + d + ".1", "a.Call" + d, "a.in" + d + ".7", d + "a.in.7"} {
			text(r, t, &dacc, &drej)
		}
	}
	r.OutcomeN("texts with words of the sources", dacc+drej)
	tokens := []string{"a", ".", "in", "OUT", "call", " ", "7", "-", "+", "0", "x", "é"}
	depth := mc.Pick(r, 6, 7)
	for d := 0; d <= depth; d++ {
		total := mc.Pow(len(tokens), d)
		var acc, rej [64]int64
		mc.Par(64, func(c int) {
			seq := make([]int, d)
			for x := c; x < total; x += 64 {
				mc.Decode(x, len(tokens), seq)
				s := ""
				for _, t := range seq {
					s += tokens[t]
				}
				text(r, s, &acc[c], &rej[c])
				if (x/64)%4096 == 0 && (r.Expired() || r.Full()) {
					return
				}
			}
		})
		for c := range acc {
			r.OutcomeN("texts_accepted", acc[c])
			r.OutcomeN("texts_rejected", rej[c])
			r.States.Add(acc[c] + rej[c])
			r.Transitions.Add(acc[c] + rej[c])
			r.Validated.Add(acc[c] + rej[c])
		}
		if r.Expired() {
			return
		}
	}
	r.Note("text_depth", depth)
	r.Note("tokens", tokens)
	// 4. Every integer near a power of two or ten, with every sign and padding of zeros.
	var acc, rej int64
	mags := map[string]bool{}
	for b := uint(0); b < 64; b++ {
		for d := -2; d <= 2; d++ {
			mags[fmt.Sprint(uint64(1)<<b+uint64(d))] = true
		}
	}
	for t, i := "1", 0; i < 25; t, i = t+"0", i+1 {
		mags[t] = true
		mags[t[:len(t)-1]+"9"] = true
	}
	for m := range mags {
		for _, sign := range []string{"", "+", "-", "--", "- ", "0", "000", "-0", "+00000000000000000000000"} {
			text(r, "a.in."+sign+m, &acc, &rej)
			text(r, "a.in. "+sign+m+" ", &acc, &rej)
			text(r, "a.in."+sign+m+".0", &acc, &rej)
		}
	}
	r.OutcomeN("integer_texts", acc+rej)
	r.States.Add(acc + rej)
	r.Transitions.Add(acc + rej)
	r.Validated.Add(acc + rej)
	r.Sample("text %q", "a.in.-09223372036854775808")
}
