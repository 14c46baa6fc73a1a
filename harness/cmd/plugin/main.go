//go:build go1.22

// A plugin that records every call and does what a file tells it.
package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"

	"github.com/netauth/netauth/pkg/plugin/tree"

	pb "github.com/netauth/protocol"
)

type call struct {
	T   int64
	P   string
	Pid int
	A   string
	E   string
	De  string
	G   string
	Did string
}

// order is what to do when an entry point is called.
type order struct {
	A, Do, Arg string
}

type plug struct {
	mu   sync.Mutex
	name string
	dir  string
}

func b64(m proto.Message) string {
	b, err := proto.Marshal(m)
	if err != nil {
		return "!" + err.Error()
	}
	return base64.StdEncoding.EncodeToString(b)
}

func um(l []string, k, v string) []string {
	out := []string{}
	for _, s := range l {
		if !strings.HasPrefix(s, k+":") {
			out = append(out, s)
		}
	}
	return append(out, k+":"+v)
}

func (p *plug) do(a string, e, de *pb.Entity, g *pb.Group) error {
	p.mu.Lock()
	defer p.mu.Unlock()
	c := call{T: time.Now().UnixNano(), P: p.name, Pid: os.Getpid(), A: a}
	if e != nil {
		c.E = b64(e)
	}
	if de != nil {
		c.De = b64(de)
	}
	if g != nil {
		c.G = b64(g)
	}
	var os_ []order
	if b, err := os.ReadFile(filepath.Join(p.dir, p.name+".ctl")); err == nil {
		json.Unmarshal(b, &os_)
	}
	var err error
	die := false
	for _, o := range os_ {
		if o.A != a {
			continue
		}
		c.Did += o.Do + " "
		switch o.Do {
		case "fail":
			err = errors.New(o.Arg)
		case "exit":
			die = true
		case "panic":
			p.log(c)
			panic("as told")
		case "sleep":
			d, _ := time.ParseDuration(o.Arg)
			os.WriteFile(filepath.Join(p.dir, p.name+".entered"), nil, 0644)
			time.Sleep(d)
		case "mark":
			k := "vp-" + p.name + "-" + a
			if e != nil {
				if e.Meta == nil {
					e.Meta = &pb.EntityMeta{}
				}
				e.Meta.UntypedMeta = um(e.Meta.UntypedMeta, k, o.Arg)
			} else {
				g.UntypedMeta = um(g.UntypedMeta, k, o.Arg)
			}
		case "set":
			if e != nil {
				if e.Meta == nil {
					e.Meta = &pb.EntityMeta{}
				}
				e.Meta.Shell = proto.String(o.Arg)
			} else {
				g.DisplayName = proto.String(o.Arg)
			}
		case "clear":
			if e != nil {
				if e.Meta == nil {
					e.Meta = &pb.EntityMeta{}
				}
				e.Meta.GECOS, e.Meta.UntypedMeta, e.Meta.Groups = nil, nil, nil
			} else {
				g.DisplayName, g.UntypedMeta = nil, nil
			}
		case "lock":
			if e.Meta == nil {
				e.Meta = &pb.EntityMeta{}
			}
			e.Meta.Locked = proto.Bool(true)
		case "unlock":
			if e != nil && e.Meta != nil {
				e.Meta.Locked = proto.Bool(false)
			}
		case "more":
			kv := &pb.KVData{Key: proto.String("vp-" + p.name), Values: []*pb.KVValue{{Value: proto.String(o.Arg), Index: proto.Int32(2)}, {Value: proto.String("")}}}
			if e != nil {
				if e.Meta == nil {
					e.Meta = &pb.EntityMeta{}
				}
				e.Meta.KV = without(e.Meta.KV, kv)
				e.Meta.Capabilities = addCap(e.Meta.Capabilities, pb.Capability_LOCK_ENTITY)
				if !contains(e.Meta.Keys, "VP:"+p.name) {
					e.Meta.Keys = append(e.Meta.Keys, "VP:"+p.name)
				}
				if a != "EntityCreate" {
					e.Number = proto.Int32(e.GetNumber() + 1000)
				}
			} else {
				g.KV = without(g.KV, kv)
				g.Capabilities = addCap(g.Capabilities, pb.Capability_LOCK_ENTITY)
				g.ManagedBy = proto.String(g.GetName())
				if a != "GroupCreate" {
					g.Number = proto.Int32(g.GetNumber() + 1000)
				}
			}
		}
	}
	p.log(c)
	if die {
		os.Exit(3)
	}
	return err
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func addCap(l []pb.Capability, c pb.Capability) []pb.Capability {
	for _, x := range l {
		if x == c {
			return l
		}
	}
	return append(l, c)
}

// without is the data with what it has under the key replaced.
func without(l []*pb.KVData, d *pb.KVData) []*pb.KVData {
	out := []*pb.KVData{}
	for _, x := range l {
		if x.GetKey() != d.GetKey() {
			out = append(out, x)
		}
	}
	return append(out, d)
}

func (p *plug) log(c call) {
	b, _ := json.Marshal(c)
	f, err := os.OpenFile(filepath.Join(p.dir, p.name+".log"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return
	}
	f.Write(append(b, '\n'))
	f.Close()
}

func (p *plug) EntityCreate(e, de pb.Entity) (pb.Entity, error) {
	err := p.do("EntityCreate", &e, &de, nil)
	return e, err
}
func (p *plug) EntityUpdate(e pb.Entity) (pb.Entity, error) {
	err := p.do("EntityUpdate", &e, nil, nil)
	return e, err
}
func (p *plug) EntityLock(e pb.Entity) (pb.Entity, error) {
	err := p.do("EntityLock", &e, nil, nil)
	return e, err
}
func (p *plug) EntityUnlock(e pb.Entity) (pb.Entity, error) {
	err := p.do("EntityUnlock", &e, nil, nil)
	return e, err
}
func (p *plug) EntityDestroy(e pb.Entity) (pb.Entity, error) {
	err := p.do("EntityDestroy", &e, nil, nil)
	return e, err
}
func (p *plug) GroupCreate(g pb.Group) (pb.Group, error) {
	err := p.do("GroupCreate", nil, nil, &g)
	return g, err
}
func (p *plug) GroupUpdate(g pb.Group) (pb.Group, error) {
	err := p.do("GroupUpdate", nil, nil, &g)
	return g, err
}
func (p *plug) GroupDestroy(g pb.Group) (pb.Group, error) {
	err := p.do("GroupDestroy", nil, nil, &g)
	return g, err
}
func (p *plug) PreSecretChange(e, de pb.Entity) (pb.Entity, error) {
	err := p.do("PreSecretChange", &e, &de, nil)
	return e, err
}
func (p *plug) PostSecretChange(e, de pb.Entity) (pb.Entity, error) {
	err := p.do("PostSecretChange", &e, &de, nil)
	return e, err
}
func (p *plug) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
	err := p.do("PreAuthCheck", &e, &de, nil)
	return e, err
}
func (p *plug) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
	err := p.do("PostAuthCheck", &e, &de, nil)
	return e, err
}

func main() {
	n := filepath.Base(os.Args[0])
	p := &plug{name: strings.TrimSuffix(n, filepath.Ext(n)), dir: os.Getenv("VPLUG_DIR")}
	p.log(call{T: time.Now().UnixNano(), P: p.name, Pid: os.Getpid(), A: "start"})
	tree.PluginMain(p)
}
