package props

import (
	"bytes"
	"slices"
	"sync"
	"testing"

	mls "github.com/emersion/go-mls"
	ref "mlsref"
)

// entry is a message in the history of a group.
type entry struct {
	raw   []byte
	data  []byte     // application data, if it is an application message
	state *ref.Group // the group after it
	name  string
}

// twins is a library client that has several instances of one group.
type twins struct {
	kpp   *mls.KeyPairPackage
	wel   *mls.Welcome
	leaf  uint32
	start *ref.Group
	log   []entry
}

// history makes a group with a library client, and messages for that client.
func (w *World) history(steps int) *twins {
	c := w.Case
	w.Plain = true
	w.startRef()
	refs := []ref.Item{Invitee{Ref: w.newRef()}.item(0), Invitee{Ref: w.newRef()}.item(0)}
	w.execute(&Plan{By: 0, Items: refs, Path: c.Bool("path")})
	w.shapes(c.Int("shapes", 0, 2), GenOpts{MaxAdd: 3, MaxRemove: 1, MaxLeaves: 9, KeepRef: 3})
	gm := w.newGo()
	inv := Invitee{Go: gm}
	pl := w.genCommit(GenOpts{MaxAdd: 1, MaxRemove: 1, MaxLeaves: 10, KeepRef: 3})
	pl.Items = append(pl.Items, inv.item(pl.By))
	w.op("%s, and a library client", pl)
	res := w.G.Commit(w.opts(pl))
	wel, err := mls.UnmarshalWelcome(res.Welcome(&ref.WelcomeOpts{Signer: pl.By}))
	w.must(err, "UnmarshalWelcome")
	w.G, w.Pend = res.G, nil
	tw := &twins{kpp: gm.KPP, wel: wel, leaf: res.Added[len(res.Added)-1], start: res.G}
	w.G.Sig[tw.leaf] = gm.sigPriv()
	add := func(e entry) { tw.log = append(tw.log, e) }
	for ; steps > 0; steps-- {
		switch c.weighted("message", 3, 2) {
		case 0:
			others := slices.DeleteFunc(w.members(), func(l uint32) bool { return l == tw.leaf })
			by := others[c.Int("committer", 0, len(others)-1)]
			pl := &Plan{By: by}
			for k := c.Int("items", 0, 3); k > 0; k-- {
				switch c.weighted("item", 2, 2, 1) {
				case 0:
					it := Invitee{Ref: w.newRef()}.item(by)
					if c.Bool("by reference") {
						var raw []byte
						it, raw = w.makeProposal(w.someLeaf("proposer"), it.Prop, it.SigPriv)
						add(entry{raw: raw, state: w.G, name: "proposal: add"})
					}
					pl.Items = append(pl.Items, it)
				case 1:
					l := w.someLeaf("updater")
					if l == by || l == tw.leaf || touches(pl, l) {
						continue
					}
					lf, sig := w.updateLeaf(l)
					it, raw := w.makeProposal(l, &ref.Proposal{Type: ref.PropUpdate, Update: lf}, sig)
					add(entry{raw: raw, state: w.G, name: "proposal: update"})
					pl.Items = append(pl.Items, it)
				case 2:
					l := w.someLeaf("removed")
					if l == by || l == tw.leaf || touches(pl, l) || len(w.members()) < 4 {
						continue
					}
					pl.Items = append(pl.Items, ref.Item{Prop: &ref.Proposal{Type: ref.PropRemove, Removed: l}, Sender: by})
				}
			}
			pl.Path = needsPath(pl.Items) || c.Bool("path")
			w.op("%s", pl)
			res := w.G.Commit(w.opts(pl))
			w.G = res.G
			add(entry{raw: res.Raw, state: w.G, name: pl.String()})
		case 1:
			by := w.someLeaf("sender")
			data := c.Bytes("payload", 200)
			w.op("message by %d", by)
			add(entry{raw: w.G.AppMessage(by, data, w.aad(), w.frame()), data: data, state: w.G, name: "message"})
		}
	}
	return tw
}

func touches(pl *Plan, l uint32) bool {
	for _, it := range pl.Items {
		if (it.Prop.Type == ref.PropRemove && it.Prop.Removed == l) || (it.Prop.Type == ref.PropUpdate && it.Sender == l) {
			return true
		}
	}
	return false
}

// trace is what one instance did.
type trace struct {
	errs  []string
	outs  [][]byte // results of processing
	said  [][]byte // one message after each step, the first one before them
	data  [][]byte
	offer []*mls.Welcome
}

// TestC23Twins: instances of one group, made from the same inputs, that take
// the messages at their own pace.
func TestC23Twins(t *testing.T) {
	run(t, 1, "at least two instances of one group were in different epochs at some time", func(c *Case) {
		w := c.world()
		tw := w.history(c.Int("steps", 1, 7))
		n := c.Int("instances", 2, 4)
		gs := make([]*mls.Group, n)
		at := make([]int, n)
		wraw := tw.wel.Bytes()
		kraw := tw.kpp.Public.Bytes()
		use := func(i int, what string) {
			st := tw.start
			if at[i] > 0 {
				st = tw.log[at[i]-1].state
			}
			w.G = st
			gm := &GoMember{G: gs[i], KPP: tw.kpp, Leaf: tw.leaf}
			w.checkSend(gm)
			ms := w.members()
			w.checkRecv(gm, ms[c.rnd.IntN(len(ms))])
			if what == "offer" {
				p := w.plainRef()
				wel, raw, err := gs[i].CreateWelcome([]mls.KeyPackage{*w.goKP(p.KP)})
				w.must(err, "CreateWelcome of instance %d", i)
				w.checkInvitation(tw.leaf, []Invitee{{Ref: p}}, wel, raw)
			}
		}
		for {
			// who moves next
			var cand []int
			for i := range gs {
				if gs[i] == nil || at[i] < len(tw.log) {
					cand = append(cand, i)
				}
			}
			if len(cand) == 0 {
				break
			}
			i := cand[c.Int("who", 0, len(cand)-1)]
			if gs[i] == nil {
				w.op("instance %d joins", i)
				g, err := mls.GroupFromWelcome(tw.wel, tw.kpp)
				w.must(err, "instance %d cannot join", i)
				gs[i] = g
			} else {
				e := tw.log[at[i]]
				w.op("instance %d takes message %d: %s", i, at[i], e.name)
				got, err := gs[i].UnmarshalAndProcessMessage(e.raw)
				w.must(err, "instance %d rejects message %d: %s", i, at[i], e.name)
				if !bytes.Equal(got, e.data) {
					c.Fatalf("instance %d reads something else in message %d", i, at[i])
				}
				at[i]++
			}
			for j := range gs {
				if gs[j] == nil {
					continue
				}
				what := "use"
				if c.rnd.IntN(4) == 0 {
					what = "offer"
				}
				use(j, what)
				if st := tw.log; at[j] > 0 && at[i] > 0 && i != j && st[at[i]-1].state != st[at[j]-1].state {
					c.nontrivial()
				}
			}
		}
		if !bytes.Equal(tw.wel.Bytes(), wraw) || !bytes.Equal(tw.kpp.Public.Bytes(), kraw) {
			c.Fatalf("shared inputs changed")
		}
	})
}

// TestC23Siblings: groups with different ids and members that share a key
// package, a credential and invitees.
func TestC23Siblings(t *testing.T) {
	run(t, 1, "two groups with shared key packages each went through at least two epochs, interleaved", func(c *Case) {
		w0 := c.world()
		gm := w0.newGo()
		p := w0.plainRef()
		shared := []*GoMember{w0.newGo(), w0.newGo()}
		kp := w0.goKP(p.KP)
		n := c.Int("groups", 2, 3)
		ws := make([]*World, n)
		epochs := make([]int, n)
		sameID := c.Bool("same id")
		for i := range ws {
			w := &World{Case: c, S: w0.S, CS: w0.CS, GID: bytes.Clone(w0.GID), Go: map[uint32]*GoMember{}}
			if !sameID {
				w.GID = append(w.GID, byte(i))
			}
			ws[i] = w
			g, err := mls.CreateGroup(w.GID, gm.KPP)
			w.must(err, "CreateGroup")
			me := &GoMember{KPP: gm.KPP, KP: gm.KP, G: g}
			wel, raw, err := g.CreateWelcome([]mls.KeyPackage{*kp})
			w.must(err, "CreateWelcome")
			rg, _, _, err := ref.Join(wel.Bytes(), p.KP, p.Init)
			w.must(err, "Join")
			_, err = g.UnmarshalAndProcessMessage(raw)
			w.must(err, "own commit")
			rg.Sig[0], rg.Sig[1] = me.sigPriv(), p.Sig
			w.G, w.Go[0] = rg, me
		}
		for k := c.Int("steps", 2, 8); k > 0; k-- {
			i := c.Int("group", 0, n-1)
			w := ws[i]
			w.op("group %d:", i)
			epochs[i]++
			switch c.weighted("step", 3, 2, 2) {
			case 0:
				pl := w.genCommit(GenOpts{MaxAdd: 2, MaxRemove: 1, GoBias: 0, MaxLeaves: 10, KeepGo: 9, KeepRef: 1})
				w.execute(pl)
			case 1:
				w.goInvite(0, []Invitee{{Ref: w.plainRef()}})
			case 2: // a shared invitee
				x := shared[c.Int("invitee", 0, 1)]
				inv := Invitee{Go: &GoMember{KPP: x.KPP, KP: x.KP}}
				if w.hasKeys(x.KP) {
					continue
				}
				if c.Bool("by the library") {
					w.goInvite(0, []Invitee{inv})
				} else {
					refs := w.refLeaves()
					by := refs[c.Int("by", 0, len(refs)-1)]
					w.execute(&Plan{By: by, Items: []ref.Item{inv.item(by)}, Invitees: []Invitee{inv}, Path: c.Bool("path")})
				}
			}
			for _, o := range ws {
				o.allInSync()
			}
		}
		busy := 0
		for _, e := range epochs {
			if e >= 2 {
				busy++
			}
		}
		if busy >= 2 {
			c.nontrivial()
		}
	})
}

// TestC23Race: many goroutines, each with groups of its own made from shared
// inputs. Meant to run with the race detector.
func TestC23Race(t *testing.T) {
	run(t, 1, "at least three goroutines used their own instances of a group and took at least one commit", func(c *Case) {
		w := c.world()
		tw := w.history(c.Int("steps", 1, 5))
		n := c.Int("goroutines", 2, 6)
		p := w.plainRef()
		kps := []mls.KeyPackage{*w.goKP(p.KP), *w.goKP(w.plainRef().KP)}
		cred := mls.NewBasicCredential([]byte("shared"))
		data := w.payload(50)
		kraw := kps[0].Bytes()
		want, err := kps[0].GenerateRef()
		c.must(err, "GenerateRef")
		// what each goroutine does is drawn before
		plans := make([][]int, n)
		for i := range plans {
			for range tw.log {
				plans[i] = append(plans[i], c.Int("between", 0, 5))
			}
		}
		own := c.Bool("decoded in the goroutine")
		wraw := tw.wel.Bytes()
		w.op("%d goroutines, %d messages, between them %v", n, len(tw.log), plans)
		out := make([]trace, n)
		var ready, done sync.WaitGroup
		ready.Add(1)
		for i := range out {
			done.Add(1)
			go func() {
				defer done.Done()
				tr := &out[i]
				fail := func(s string, err error) bool {
					if err != nil {
						tr.errs = append(tr.errs, s+": "+err.Error())
					}
					return err != nil
				}
				ready.Wait()
				wel := tw.wel
				if own && i%2 == 0 {
					x, err := mls.UnmarshalWelcome(wraw)
					if fail("UnmarshalWelcome", err) {
						return
					}
					wel = x
				}
				g, err := mls.GroupFromWelcome(wel, tw.kpp)
				if fail("GroupFromWelcome", err) {
					return
				}
				say := func() {
					raw, err := g.CreateApplicationMessage(data)
					if !fail("CreateApplicationMessage", err) {
						tr.said = append(tr.said, raw)
					}
				}
				say()
				for j, e := range tw.log {
					switch plans[i][j] {
					case 1:
						wel, raw, err := g.CreateWelcome(kps)
						if !fail("CreateWelcome", err) {
							tr.offer = append(tr.offer, wel)
							tr.data = append(tr.data, raw)
						}
					case 2:
						kpp, err := mls.GenerateKeyPairPackage(w.CS, cred)
						if !fail("GenerateKeyPairPackage", err) {
							kpp.Public.Bytes()
							o, err := mls.CreateGroup(w.GID, kpp)
							if !fail("CreateGroup", err) {
								o.CreateApplicationMessage(data)
							}
						}
					case 3:
						o, err := mls.CreateGroup(w.GID, tw.kpp)
						if !fail("CreateGroup", err) {
							_, raw, err := o.CreateWelcome(kps)
							if !fail("CreateWelcome", err) {
								_, err := o.UnmarshalAndProcessMessage(raw)
								fail("own commit", err)
							}
						}
					case 4:
						r, err := kps[0].GenerateRef()
						if !fail("GenerateRef", err) && !r.Equal(want) {
							tr.errs = append(tr.errs, "another reference")
						}
						if !bytes.Equal(kps[0].Bytes(), kraw) || !bytes.Equal(tw.wel.Bytes(), wraw) || len(tw.wel.NewMembers()) == 0 {
							tr.errs = append(tr.errs, "another encoding")
						}
					case 5:
						kp, err := mls.UnmarshalKeyPackage(kraw)
						if !fail("UnmarshalKeyPackage", err) && !bytes.Equal(kp.Bytes(), kraw) {
							tr.errs = append(tr.errs, "another encoding")
						}
						_ = w.CS.String()
						_ = w.CS.Supported()
					}
					got, err := g.UnmarshalAndProcessMessage(e.raw)
					fail("message", err)
					tr.outs = append(tr.outs, got)
					say()
				}
			}()
		}
		ready.Done()
		done.Wait()
		commits := 0
		for i, tr := range out {
			if len(tr.errs) > 0 {
				c.Fatalf("goroutine %d: %v", i, tr.errs)
			}
			st := tw.start
			for j := 0; j <= len(tw.log); j++ {
				o, err := st.Unprotect(tr.said[j])
				w.must(err, "message %d of goroutine %d", j, i)
				if !bytes.Equal(o.AC.Content.App, data) || o.SD.Leaf != tw.leaf {
					c.Fatalf("message %d of goroutine %d contains something else", j, i)
				}
				if j < len(tw.log) {
					if !bytes.Equal(tr.outs[j], tw.log[j].data) {
						c.Fatalf("goroutine %d reads something else in message %d", i, j)
					}
					if tw.log[j].state != st {
						commits++
					}
					st = tw.log[j].state
				}
			}
			for _, wel := range tr.offer {
				_, _, _, err := ref.Join(wel.Bytes(), p.KP, p.Init)
				w.must(err, "Welcome of goroutine %d", i)
			}
		}
		if n >= 3 && commits > 0 {
			c.nontrivial()
		}
	})
}
