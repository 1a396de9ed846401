package props

import (
	"bytes"
	"testing"

	mls "github.com/emersion/go-mls"
)

// crowd is a group of go-mls members only: no oracle but the agreement of the
// members with each other.
type crowd struct {
	*Case
	cs     mls.CipherSuite
	gs     []*mls.Group
	epochs int
}

func (w *crowd) kpp() *mls.KeyPairPackage {
	k, err := mls.GenerateKeyPairPackage(w.cs, mls.NewBasicCredential(w.Bytes("identity", 300)))
	w.must(err, "GenerateKeyPairPackage")
	return k
}

// say lets one member send; every other member must read exactly that.
func (w *crowd) say(i int, data []byte) {
	raw, err := w.gs[i].CreateApplicationMessage(bytes.Clone(data))
	w.must(err, "CreateApplicationMessage by member %d", i)
	for j, g := range w.gs {
		if j == i {
			continue
		}
		got, err := g.UnmarshalAndProcessMessage(bytes.Clone(raw))
		w.must(err, "member %d cannot read the message of member %d (%d members)", j, i, len(w.gs))
		if !bytes.Equal(got, data) {
			w.Fatalf("member %d reads %x instead of %x", j, got, data)
		}
	}
	w.count("messages")
}

func (w *crowd) invite(by, n int) {
	var kpps []*mls.KeyPairPackage
	var kps []mls.KeyPackage
	for i := 0; i < n; i++ {
		k := w.kpp()
		kpps = append(kpps, k)
		if w.Bool("over the wire") {
			p, err := mls.UnmarshalKeyPackage(k.Public.Bytes())
			w.must(err, "UnmarshalKeyPackage")
			kps = append(kps, *p)
		} else {
			kps = append(kps, k.Public)
		}
	}
	w.op("member %d invites %d", by, n)
	wel, commit, err := w.gs[by].CreateWelcome(kps)
	w.must(err, "CreateWelcome by member %d", by)
	// a member may send before the others have processed the commit
	late := -1
	if w.Chance("late", 3) {
		late = w.Int("late sender", 0, len(w.gs)-1)
		w.say(late, w.payload(20))
	}
	raw := wel.Bytes()
	// joiners may come before or after the members
	join := func() {
		for i, k := range kpps {
			ww := wel
			if w.Bool("welcome over the wire") {
				ww, err = mls.UnmarshalWelcome(bytes.Clone(raw))
				w.must(err, "UnmarshalWelcome")
			}
			g, err := mls.GroupFromWelcome(ww, k)
			w.must(err, "invitee %d of member %d cannot join", i, by)
			w.gs = append(w.gs, g)
		}
	}
	old := len(w.gs)
	first := w.Bool("joiners first")
	if first {
		join()
	}
	for i := 0; i < old; i++ {
		data, err := w.gs[i].UnmarshalAndProcessMessage(bytes.Clone(commit))
		w.must(err, "member %d cannot process the commit of member %d", i, by)
		if data != nil {
			w.Fatalf("commit returned application data")
		}
	}
	if !first {
		join()
	}
	w.epochs++
}

func (w *crowd) payload(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(w.rnd.Uint32())
	}
	return b
}

func TestC01Agreement(t *testing.T) {
	run(t, 1, "at least two invitations by different epochs and at least 4 members in the end", func(c *Case) {
		s := c.suite()
		w := &crowd{Case: c, cs: mls.CipherSuite(s.ID)}
		gid := c.Bytes("group id", 300)
		g, err := mls.CreateGroup(bytes.Clone(gid), w.kpp())
		c.must(err, "CreateGroup")
		w.gs = []*mls.Group{g}
		maxMembers := pick(c, "max members", 5, 9, 17, 40)
		for n := c.many("steps", 1, 8, 40); n > 0; n-- {
			switch c.weighted("step", 3, 1, 1) {
			case 0:
				if room := maxMembers - len(w.gs); room > 0 {
					w.invite(c.Int("inviter", 0, len(w.gs)-1), c.many("batch", 1, min(room, 8), room))
				}
			case 1:
				i := c.Int("speaker", 0, len(w.gs)-1)
				data := c.Bytes("payload", 70000)
				c.op("member %d sends %d bytes", i, len(data))
				w.say(i, data)
			case 2: // an invitation that is never sent
				i := c.Int("undecided", 0, len(w.gs)-1)
				c.op("member %d prepares an invitation and drops it", i)
				_, _, err := w.gs[i].CreateWelcome([]mls.KeyPackage{w.kpp().Public})
				c.must(err, "CreateWelcome")
			}
			w.say(w.rnd.IntN(len(w.gs)), w.payload(w.rnd.IntN(40)))
		}
		for i := range w.gs {
			w.say(i, w.payload(w.rnd.IntN(60)))
		}
		if c.Chance("huge", 30) {
			c.class("huge message")
			w.say(0, w.payload(c.Int("huge", 1<<20-200, 3<<20)))
		}
		c.class("members<=%d", (len(w.gs)+7)/8*8)
		if w.epochs >= 2 && len(w.gs) >= 4 {
			c.nontrivial()
		}
	})
}
