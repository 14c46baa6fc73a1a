//go:build go1.22

package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// Flat is a flattened view of everything observable.
type Flat map[string]string

func kvProto(d *types.KVData) string {
	s := ""
	for _, v := range d.GetValues() {
		if v.Index != nil {
			s += fmt.Sprintf("%q@%d,", v.GetValue(), v.GetIndex())
		} else {
			s += fmt.Sprintf("%q,", v.GetValue())
		}
	}
	return s
}

func qlist(l []string) string {
	x := append([]string{}, l...)
	sort.Strings(x)
	return fmt.Sprintf("%q", x)
}

func capStr(cs []types.Capability) string {
	x := []int{}
	for _, c := range cs {
		x = append(x, int(c))
	}
	sort.Ints(x)
	return fmt.Sprint(x)
}

// flatEntity flattens an entity message.
func flatEntity(f Flat, p string, e *types.Entity) {
	m := e.GetMeta()
	f[p+"num"] = fmt.Sprint(e.GetNumber())
	f[p+"locked"] = fmt.Sprint(m.GetLocked())
	for _, n := range entFields {
		if v := entFieldPtr(m, n); v != nil && *v != "" {
			f[p+"meta/"+n] = *v
		}
	}
	f[p+"groups"] = qlist(m.GetGroups())
	f[p+"caps"] = capStr(m.GetCapabilities())
	f[p+"keys"] = qlist(m.GetKeys())
	f[p+"um"] = qlist(m.GetUntypedMeta())
	kv := []string{}
	for _, d := range m.GetKV() {
		kv = append(kv, d.GetKey()+"="+kvProto(d))
	}
	f[p+"kv"] = qlist(kv)
}

func flatGroup(f Flat, p string, g *types.Group) {
	f[p+"num"] = fmt.Sprint(g.GetNumber())
	f[p+"disp"] = g.GetDisplayName()
	f[p+"man"] = g.GetManagedBy()
	f[p+"caps"] = capStr(g.GetCapabilities())
	f[p+"rules"] = qlist(g.GetExpansions())
	f[p+"um"] = qlist(g.GetUntypedMeta())
	kv := []string{}
	for _, d := range g.GetKV() {
		kv = append(kv, d.GetKey()+"="+kvProto(d))
	}
	f[p+"kv"] = qlist(kv)
}

// ruleName is how a rule mode shows in stored rules.
func ruleName(mode int32) string {
	if mode == ruleINC {
		return "INCLUDE"
	}
	return "EXCLUDE"
}

// Flatten turns the model into the same view.
func (m *Model) Flatten() Flat {
	f := Flat{}
	for n, e := range m.E {
		p := "E/" + n + "/"
		f[p+"exists"] = "yes"
		f[p+"num"] = fmt.Sprint(e.Num)
		f[p+"locked"] = fmt.Sprint(e.Locked)
		for k, v := range e.Meta {
			if v != "" {
				f[p+"meta/"+k] = v
			}
		}
		f[p+"groups"] = qlist(sortedKeys(e.Groups))
		cs := []types.Capability{}
		for c := range e.Caps {
			cs = append(cs, types.Capability(c))
		}
		f[p+"caps"] = capStr(cs)
		f[p+"keys"] = qlist(sortedKeys(e.Keys))
		um := []string{}
		for k, v := range e.UM {
			um = append(um, k+":"+v)
		}
		f[p+"um"] = qlist(um)
		kv := []string{}
		for k, v := range e.KV {
			kv = append(kv, k+"="+v)
		}
		f[p+"kv"] = qlist(kv)
		f[p+"eff"] = qlist(m.Effective(n))
		f[p+"auth"] = fmt.Sprint(!e.Locked)
	}
	for n, g := range m.G {
		p := "G/" + n + "/"
		f[p+"exists"] = "yes"
		f[p+"num"] = fmt.Sprint(g.Num)
		f[p+"disp"] = g.Disp
		f[p+"man"] = g.Man
		cs := []types.Capability{}
		for c := range g.Caps {
			cs = append(cs, types.Capability(c))
		}
		f[p+"caps"] = capStr(cs)
		rs := []string{}
		for t, mode := range g.Rules {
			rs = append(rs, ruleName(mode)+":"+t)
		}
		f[p+"rules"] = qlist(rs)
		um := []string{}
		for k, v := range g.UM {
			um = append(um, k+":"+v)
		}
		f[p+"um"] = qlist(um)
		kv := []string{}
		for k, v := range g.KV {
			kv = append(kv, k+"="+v)
		}
		f[p+"kv"] = qlist(kv)
		f[p+"members"] = qlist(m.Members(n))
	}
	f["LIST/entities"] = qlist(sortedKeys(m.E))
	f["LIST/groups"] = qlist(sortedKeys(m.G))
	return f
}

// AuditOpts selects what is read.
type AuditOpts struct {
	Names []string          // further names to look up
	Auth  map[string]string // entity -> secret to try
}

// audit reads everything a client could see about the named objects.
func audit(s RPC, spy *Spy, ents, grps []string, auth map[string]string) (Flat, error) {
	f := Flat{}
	ctx := context.Background()
	for _, n := range ents {
		p := "E/" + n + "/"
		r := Exec(ctx, s, Op{K: "EntityInfo", E: n})
		if !r.OK() {
			// Not there: nothing may still be reported about it.
			if g := Exec(ctx, s, Op{K: "EntityGroups", E: n}); g.OK() && len(g.Grps) > 0 {
				f[p+"eff"] = qlist(groupNames(g.Grps))
			}
			continue
		}
		if len(r.Ents) != 1 {
			f[p+"exists"] = fmt.Sprintf("%d answers", len(r.Ents))
			continue
		}
		e := r.Ents[0]
		f[p+"exists"] = "yes"
		if e.GetID() != n {
			f[p+"id"] = e.GetID()
		}
		flatEntity(f, p, e)
		g := Exec(ctx, s, Op{K: "EntityGroups", E: n})
		if !g.OK() {
			f[p+"eff"] = "error:" + g.Code.String()
		} else {
			f[p+"eff"] = qlist(groupNames(g.Grps))
		}
		if sec, ok := auth[n]; ok {
			a := Exec(ctx, s, Op{K: "AuthEntity", E: n, S: sec})
			f[p+"auth"] = fmt.Sprint(a.OK())
		}
		// The dedicated readers must agree with the record.
		if r := Exec(ctx, s, Op{K: "EntityKeys", E: n, Act: actREAD}); r.OK() && qlist(r.Strs) != f[p+"keys"] {
			f[p+"keys"] += " reader:" + qlist(r.Strs)
		}
		if r := Exec(ctx, s, Op{K: "EntityUM", E: n, Act: actREAD, Key: "*"}); r.OK() && qlist(r.Strs) != f[p+"um"] {
			f[p+"um"] += " reader:" + qlist(r.Strs)
		}
	}
	for _, n := range grps {
		p := "G/" + n + "/"
		mr := Exec(ctx, s, Op{K: "GroupMembers", G: n})
		r := Exec(ctx, s, Op{K: "GroupInfo", G: n})
		if !r.OK() {
			if mr.OK() && len(mr.Ents) > 0 {
				f[p+"members"] = qlist(entityNames(mr.Ents))
			}
			continue
		}
		if len(r.Grps) != 1 {
			f[p+"exists"] = fmt.Sprintf("%d answers", len(r.Grps))
			continue
		}
		g := r.Grps[0]
		f[p+"exists"] = "yes"
		if g.GetName() != n {
			f[p+"id"] = g.GetName()
		}
		flatGroup(f, p, g)
		if !mr.OK() {
			f[p+"members"] = "error:" + mr.Code.String()
		} else {
			f[p+"members"] = qlist(entityNames(mr.Ents))
		}
		if r := Exec(ctx, s, Op{K: "GroupUM", G: n, Act: actREAD, Key: "*"}); r.OK() && qlist(r.Strs) != f[p+"um"] {
			f[p+"um"] += " reader:" + qlist(r.Strs)
		}
	}
	if spy != nil {
		d, err := spy.Dump()
		if err != nil {
			return nil, err
		}
		es, gs := []string{}, []string{}
		for k, v := range d {
			switch {
			case strings.HasPrefix(k, "/entities/"):
				es = append(es, strings.TrimPrefix(k, "/entities/"))
				e := &types.Entity{}
				if err := proto.Unmarshal([]byte(v), e); err != nil {
					f["RAW"+k] = "undecodable"
				}
			case strings.HasPrefix(k, "/groups/"):
				gs = append(gs, strings.TrimPrefix(k, "/groups/"))
				g := &types.Group{}
				if err := proto.Unmarshal([]byte(v), g); err != nil {
					f["RAW"+k] = "undecodable"
				}
			default:
				f["RAW"+k] = "unexpected key"
			}
		}
		f["LIST/entities"] = qlist(es)
		f["LIST/groups"] = qlist(gs)
	}
	return f, nil
}

func entityNames(l []*types.Entity) []string {
	out := []string{}
	for _, e := range l {
		if e == nil {
			out = append(out, "<nil>")
			continue
		}
		out = append(out, e.GetID())
	}
	return out
}

func groupNames(l []*types.Group) []string {
	out := []string{}
	for _, g := range l {
		if g == nil {
			out = append(out, "<nil>")
			continue
		}
		out = append(out, g.GetName())
	}
	return out
}

// Diff is one disagreement between the reference and what was seen.
type Diff struct {
	Key, Want, Got string
}

func (d Diff) String() string {
	return fmt.Sprintf("%s: want %s, got %s", d.Key, orNone(d.Want), orNone(d.Got))
}

func orNone(s string) string {
	if s == "" {
		return "<nothing>"
	}
	return s
}

// Aspect is the field class of a diff key, without object names.
func (d Diff) Aspect() string {
	p := strings.Split(d.Key, "/")
	if len(p) < 3 || (p[0] != "E" && p[0] != "G") {
		if strings.HasPrefix(d.Key, "RAW") {
			return "RAW"
		}
		return d.Key
	}
	last := p[len(p)-1]
	if len(p) > 3 && p[len(p)-2] == "meta" {
		return p[0] + "/meta"
	}
	return p[0] + "/" + last
}

func diffFlat(want, got Flat) []Diff {
	out := []Diff{}
	for k, v := range want {
		if g := got[k]; g != v {
			out = append(out, Diff{k, v, g})
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok && v != "" {
			out = append(out, Diff{k, "", v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}

func union(a ...[]string) []string {
	s := map[string]bool{}
	for _, l := range a {
		for _, x := range l {
			s[x] = true
		}
	}
	return sortedKeys(s)
}

var _ = pb.Action_ADD
