package ref

// Wire formats, content types, sender types.
const (
	WFPublic     = 1
	WFPrivate    = 2
	WFWelcome    = 3
	WFGroupInfo  = 4
	WFKeyPackage = 5

	CTApplication = 1
	CTProposal    = 2
	CTCommit      = 3

	SenderMember    = 1
	SenderExternal  = 2
	SenderNewProp   = 3
	SenderNewCommit = 4

	SrcKeyPackage = 1
	SrcUpdate     = 2
	SrcCommit     = 3

	PropAdd          = 1
	PropUpdate       = 2
	PropRemove       = 3
	PropPSK          = 4
	PropReInit       = 5
	PropExternalInit = 6
	PropGCE          = 7

	ExtApplicationID = 1
	ExtRatchetTree   = 2
	ExtRequiredCaps  = 3
	ExtExternalPub   = 4
	ExtExternalSnd   = 5

	CredBasic = 1
	CredX509  = 2
)

type Ext struct {
	Type uint16
	Data []byte
}

func encExts(exts []Ext) []byte {
	var b []byte
	for _, e := range exts {
		b = append(b, Cat(U16(e.Type), Vec(e.Data))...)
	}
	return Vec(b)
}

func decExts(r *R) (out []Ext) {
	r.Each(func(r *R) { out = append(out, Ext{r.U16(), r.Vec()}) })
	return out
}

type Cred struct {
	Type     uint16
	Identity []byte
	Certs    [][]byte
	Raw      []byte // overrides the body for unknown types
}

func (c Cred) Enc() []byte {
	switch c.Type {
	case CredBasic:
		return Cat(U16(c.Type), Vec(c.Identity))
	case CredX509:
		var b []byte
		for _, x := range c.Certs {
			b = append(b, Vec(x)...)
		}
		return Cat(U16(c.Type), Vec(b))
	}
	return Cat(U16(c.Type), c.Raw)
}

func decCred(r *R) (c Cred) {
	c.Type = r.U16()
	switch c.Type {
	case CredBasic:
		c.Identity = r.Vec()
	case CredX509:
		r.Each(func(r *R) { c.Certs = append(c.Certs, r.Vec()) })
	default:
		fail("ref: credential type")
	}
	return c
}

func Basic(id string) Cred { return Cred{Type: CredBasic, Identity: []byte(id)} }

type Caps struct{ Versions, Suites, Exts, Props, Creds []uint16 }

func (c Caps) Enc() []byte {
	return Cat(VecU16(c.Versions), VecU16(c.Suites), VecU16(c.Exts), VecU16(c.Props), VecU16(c.Creds))
}

func decCaps(r *R) Caps {
	return Caps{r.VecU16(), r.VecU16(), r.VecU16(), r.VecU16(), r.VecU16()}
}

// Leaf is a LeafNode. Values are treated as immutable once in a tree.
type Leaf struct {
	EncKey, SigKey []byte
	Cred           Cred
	Caps           Caps
	Source         uint8
	NotBefore      uint64
	NotAfter       uint64
	ParentHash     []byte
	Exts           []Ext
	Signature      []byte
}

func (l *Leaf) base() []byte {
	var src []byte
	switch l.Source {
	case SrcKeyPackage:
		src = Cat(U64(l.NotBefore), U64(l.NotAfter))
	case SrcCommit:
		src = Vec(l.ParentHash)
	}
	return Cat(Vec(l.EncKey), Vec(l.SigKey), l.Cred.Enc(), l.Caps.Enc(), U8(l.Source), src, encExts(l.Exts))
}

func (l *Leaf) Enc() []byte { return Cat(l.base(), Vec(l.Signature)) }

func (l *Leaf) tbs(groupID []byte, idx uint32) []byte {
	b := l.base()
	if l.Source == SrcUpdate || l.Source == SrcCommit {
		b = Cat(b, Vec(groupID), U32(idx))
	}
	return b
}

func (l *Leaf) Sign(s Suite, priv, groupID []byte, idx uint32) {
	l.Signature = s.Sign(priv, "LeafNodeTBS", l.tbs(groupID, idx))
}

func (l *Leaf) VerifySig(s Suite, groupID []byte, idx uint32) bool {
	return s.Verify(l.SigKey, "LeafNodeTBS", l.tbs(groupID, idx), l.Signature)
}

func (l *Leaf) Copy() *Leaf { c := *l; return &c }

func decLeaf(r *R) *Leaf {
	l := &Leaf{EncKey: r.Vec(), SigKey: r.Vec()}
	l.Cred = decCred(r)
	l.Caps = decCaps(r)
	l.Source = r.U8()
	switch l.Source {
	case SrcKeyPackage:
		l.NotBefore, l.NotAfter = r.U64(), r.U64()
	case SrcUpdate:
	case SrcCommit:
		l.ParentHash = r.Vec()
	default:
		fail("ref: leaf source")
	}
	l.Exts = decExts(r)
	l.Signature = r.Vec()
	return l
}

type KeyPackage struct {
	Version   uint16
	Suite     Suite
	InitKey   []byte
	Leaf      *Leaf
	Exts      []Ext
	Signature []byte
}

func (k *KeyPackage) tbs() []byte {
	return Cat(U16(k.Version), U16(uint16(k.Suite)), Vec(k.InitKey), k.Leaf.Enc(), encExts(k.Exts))
}
func (k *KeyPackage) Enc() []byte { return Cat(k.tbs(), Vec(k.Signature)) }
func (k *KeyPackage) Msg() []byte { return Cat(U16(1), U16(WFKeyPackage), k.Enc()) }
func (k *KeyPackage) Sign(priv []byte) {
	k.Signature = k.Suite.Sign(priv, "KeyPackageTBS", k.tbs())
}
func (k *KeyPackage) SignAs(s Suite, priv []byte) {
	k.Signature = s.Sign(priv, "KeyPackageTBS", k.tbs())
}
func (k *KeyPackage) VerifySig() bool {
	return k.Suite.Verify(k.Leaf.SigKey, "KeyPackageTBS", k.tbs(), k.Signature)
}
func (k *KeyPackage) Ref() []byte {
	return k.Suite.RefHash("MLS 1.0 KeyPackage Reference", k.Enc())
}
func (k *KeyPackage) RefAs(s Suite) []byte {
	return s.RefHash("MLS 1.0 KeyPackage Reference", k.Enc())
}
func (k *KeyPackage) Copy() *KeyPackage { c := *k; c.Leaf = k.Leaf.Copy(); return &c }

func decKeyPackage(r *R) *KeyPackage {
	k := &KeyPackage{Version: r.U16(), Suite: Suite(r.U16()), InitKey: r.Vec()}
	k.Leaf = decLeaf(r)
	k.Exts = decExts(r)
	k.Signature = r.Vec()
	return k
}

// ParseKeyPackage reads a key package message.
func ParseKeyPackage(b []byte) (k *KeyPackage, err error) {
	err = Decode(b, func(r *R) {
		if r.U16() != 1 || r.U16() != WFKeyPackage {
			fail("ref: not a key package")
		}
		k = decKeyPackage(r)
	})
	return k, err
}

type PSKID struct {
	Type     uint8 // 1 external, 2 resumption
	ID       []byte
	Usage    uint8
	GroupID  []byte
	Epoch    uint64
	Nonce    []byte
	Material []byte // not encoded
}

func (p PSKID) Enc() []byte {
	if p.Type == 1 {
		return Cat(U8(1), Vec(p.ID), Vec(p.Nonce))
	}
	return Cat(U8(p.Type), U8(p.Usage), Vec(p.GroupID), U64(p.Epoch), Vec(p.Nonce))
}

func decPSK(r *R) (p PSKID) {
	p.Type = r.U8()
	switch p.Type {
	case 1:
		p.ID = r.Vec()
	case 2:
		p.Usage = r.U8()
		if p.Usage < 1 || p.Usage > 3 {
			fail("ref: psk usage")
		}
		p.GroupID, p.Epoch = r.Vec(), r.U64()
	default:
		fail("ref: psk type")
	}
	p.Nonce = r.Vec()
	return p
}

type Proposal struct {
	Type    uint16
	KP      *KeyPackage // add
	Leaf    *Leaf       // update
	Removed uint32      // remove
	PSK     PSKID
	ReInit  struct {
		GroupID []byte
		Version uint16
		Suite   uint16
		Exts    []Ext
	}
	Kem  []byte
	Exts []Ext // GCE
	Raw  []byte
}

func (p *Proposal) Enc() []byte {
	h := U16(p.Type)
	if p.Raw != nil {
		return Cat(h, p.Raw)
	}
	switch p.Type {
	case PropAdd:
		return Cat(h, p.KP.Enc())
	case PropUpdate:
		return Cat(h, p.Leaf.Enc())
	case PropRemove:
		return Cat(h, U32(p.Removed))
	case PropPSK:
		return Cat(h, p.PSK.Enc())
	case PropReInit:
		return Cat(h, Vec(p.ReInit.GroupID), U16(p.ReInit.Version), U16(p.ReInit.Suite), encExts(p.ReInit.Exts))
	case PropExternalInit:
		return Cat(h, Vec(p.Kem))
	case PropGCE:
		return Cat(h, encExts(p.Exts))
	}
	return h
}

func decProposal(r *R) *Proposal {
	p := &Proposal{Type: r.U16()}
	switch p.Type {
	case PropAdd:
		p.KP = decKeyPackage(r)
	case PropUpdate:
		p.Leaf = decLeaf(r)
	case PropRemove:
		p.Removed = r.U32()
	case PropPSK:
		p.PSK = decPSK(r)
	case PropReInit:
		p.ReInit.GroupID, p.ReInit.Version, p.ReInit.Suite = r.Vec(), r.U16(), r.U16()
		p.ReInit.Exts = decExts(r)
	case PropExternalInit:
		p.Kem = r.Vec()
	case PropGCE:
		p.Exts = decExts(r)
	default:
		fail("ref: proposal type")
	}
	return p
}

func Add(kp *KeyPackage) *Proposal    { return &Proposal{Type: PropAdd, KP: kp} }
func Remove(i int) *Proposal          { return &Proposal{Type: PropRemove, Removed: uint32(i)} }
func UpdateWith(l *Leaf) *Proposal    { return &Proposal{Type: PropUpdate, Leaf: l} }
func PSK(id PSKID) *Proposal          { return &Proposal{Type: PropPSK, PSK: id} }
func GCE(exts ...Ext) *Proposal       { return &Proposal{Type: PropGCE, Exts: exts} }
func ExternalInit(k []byte) *Proposal { return &Proposal{Type: PropExternalInit, Kem: k} }

// PropOrRef is an entry in a commit's proposal list.
type PropOrRef struct {
	Prop *Proposal
	Ref  []byte
}

func (p PropOrRef) Enc() []byte {
	if p.Prop != nil {
		return Cat(U8(1), p.Prop.Enc())
	}
	return Cat(U8(2), Vec(p.Ref))
}

type HPKECt struct{ Kem, Ct []byte }

func (h HPKECt) Enc() []byte { return Cat(Vec(h.Kem), Vec(h.Ct)) }

type PathNode struct {
	EncKey []byte
	Cts    []HPKECt
}

func (n PathNode) Enc() []byte {
	var b []byte
	for _, c := range n.Cts {
		b = append(b, c.Enc()...)
	}
	return Cat(Vec(n.EncKey), Vec(b))
}

type Path struct {
	Leaf  *Leaf
	Nodes []PathNode
}

func (p *Path) Enc() []byte {
	var b []byte
	for _, n := range p.Nodes {
		b = append(b, n.Enc()...)
	}
	return Cat(p.Leaf.Enc(), Vec(b))
}

func decPath(r *R) *Path {
	p := &Path{Leaf: decLeaf(r)}
	r.Each(func(r *R) {
		n := PathNode{EncKey: r.Vec()}
		r.Each(func(r *R) { n.Cts = append(n.Cts, HPKECt{r.Vec(), r.Vec()}) })
		p.Nodes = append(p.Nodes, n)
	})
	return p
}

type Commit struct {
	Props []PropOrRef
	Path  *Path
}

func (c *Commit) Enc() []byte {
	var b []byte
	for _, p := range c.Props {
		b = append(b, p.Enc()...)
	}
	if c.Path == nil {
		return Cat(Vec(b), Opt(false, nil))
	}
	return Cat(Vec(b), Opt(true, c.Path.Enc()))
}

func decCommit(r *R) *Commit {
	c := &Commit{}
	r.Each(func(r *R) {
		switch r.U8() {
		case 1:
			c.Props = append(c.Props, PropOrRef{Prop: decProposal(r)})
		case 2:
			c.Props = append(c.Props, PropOrRef{Ref: r.Vec()})
		default:
			fail("ref: proposal-or-ref")
		}
	})
	if r.Opt() {
		c.Path = decPath(r)
	}
	return c
}

type Ctx struct {
	Version  uint16
	Suite    Suite
	GroupID  []byte
	Epoch    uint64
	TreeHash []byte
	CTH      []byte
	Exts     []Ext
}

func (c Ctx) Enc() []byte {
	return Cat(U16(c.Version), U16(uint16(c.Suite)), Vec(c.GroupID), U64(c.Epoch), Vec(c.TreeHash), Vec(c.CTH), encExts(c.Exts))
}

func decCtx(r *R) (c Ctx) {
	c.Version, c.Suite = r.U16(), Suite(r.U16())
	c.GroupID, c.Epoch = r.Vec(), r.U64()
	c.TreeHash, c.CTH = r.Vec(), r.Vec()
	c.Exts = decExts(r)
	return c
}

type GroupInfo struct {
	Ctx       Ctx
	Exts      []Ext
	ConfTag   []byte
	Signer    uint32
	Signature []byte
}

func (g *GroupInfo) tbs() []byte {
	return Cat(g.Ctx.Enc(), encExts(g.Exts), Vec(g.ConfTag), U32(g.Signer))
}
func (g *GroupInfo) TBS() []byte { return g.tbs() }
func (g *GroupInfo) Enc() []byte { return Cat(g.tbs(), Vec(g.Signature)) }
func (g *GroupInfo) Sign(s Suite, priv []byte) {
	g.Signature = s.Sign(priv, "GroupInfoTBS", g.tbs())
}

func decGroupInfo(r *R) *GroupInfo {
	g := &GroupInfo{Ctx: decCtx(r)}
	g.Exts = decExts(r)
	g.ConfTag, g.Signer = r.Vec(), r.U32()
	g.Signature = r.Vec()
	return g
}

type GroupSecrets struct {
	Joiner     []byte
	PathSecret []byte
	PSKs       []PSKID
}

func (g *GroupSecrets) Enc() []byte {
	var b []byte
	for _, p := range g.PSKs {
		b = append(b, p.Enc()...)
	}
	return Cat(Vec(g.Joiner), Opt(g.PathSecret != nil, Vec(g.PathSecret)), Vec(b))
}

func decGroupSecrets(r *R) *GroupSecrets {
	g := &GroupSecrets{Joiner: r.Vec()}
	if r.Opt() {
		g.PathSecret = r.Vec()
	}
	r.Each(func(r *R) { g.PSKs = append(g.PSKs, decPSK(r)) })
	return g
}

type EncSecrets struct {
	NewMember []byte
	Ct        HPKECt
}

type Welcome struct {
	Suite   uint16
	Secrets []EncSecrets
	EncInfo []byte
}

func (w *Welcome) Enc() []byte {
	var b []byte
	for _, s := range w.Secrets {
		b = append(b, Cat(Vec(s.NewMember), s.Ct.Enc())...)
	}
	return Cat(U16(w.Suite), Vec(b), Vec(w.EncInfo))
}
func (w *Welcome) Msg() []byte { return Cat(U16(1), U16(WFWelcome), w.Enc()) }

func ParseWelcome(b []byte) (w *Welcome, err error) {
	w = &Welcome{}
	err = Decode(b, func(r *R) {
		if r.U16() != 1 || r.U16() != WFWelcome {
			fail("ref: not a welcome")
		}
		w.Suite = r.U16()
		r.Each(func(r *R) {
			w.Secrets = append(w.Secrets, EncSecrets{r.Vec(), HPKECt{r.Vec(), r.Vec()}})
		})
		w.EncInfo = r.Vec()
	})
	return w, err
}

// Content is a FramedContent.
type Content struct {
	GroupID    []byte
	Epoch      uint64
	SenderType uint8
	Sender     uint32
	AAD        []byte
	Type       uint8
	Body       []byte // encoded application data vector, Proposal or Commit
}

func (c *Content) Enc() []byte {
	snd := U8(c.SenderType)
	if c.SenderType == SenderMember || c.SenderType == SenderExternal {
		snd = Cat(snd, U32(c.Sender))
	}
	return Cat(Vec(c.GroupID), U64(c.Epoch), snd, Vec(c.AAD), U8(c.Type), c.Body)
}

// Auth is AuthenticatedContent.
type Auth struct {
	WF      uint16
	Content Content
	Sig     []byte
	ConfTag []byte
}

func (a *Auth) tbs(ctx Ctx) []byte {
	b := Cat(U16(1), U16(a.WF), a.Content.Enc())
	if a.Content.SenderType == SenderMember || a.Content.SenderType == SenderNewCommit {
		b = Cat(b, ctx.Enc())
	}
	return b
}

func (a *Auth) authData() []byte {
	b := Vec(a.Sig)
	if a.Content.Type == CTCommit {
		b = Cat(b, Vec(a.ConfTag))
	}
	return b
}

func (a *Auth) Enc() []byte { return Cat(U16(a.WF), a.Content.Enc(), a.authData()) }

// Ref is the proposal reference.
func (a *Auth) Ref(s Suite) []byte { return s.RefHash("MLS 1.0 Proposal Reference", a.Enc()) }

func decBody(r *R, typ uint8) (body []byte, prop *Proposal, com *Commit, app []byte) {
	before := r.b
	switch typ {
	case CTApplication:
		app = r.Vec()
	case CTProposal:
		prop = decProposal(r)
	case CTCommit:
		com = decCommit(r)
	default:
		fail("ref: content type")
	}
	return before[:len(before)-len(r.b)], prop, com, app
}

// PrivMsg is a PrivateMessage.
type PrivMsg struct {
	GroupID []byte
	Epoch   uint64
	Type    uint8
	AAD     []byte
	EncSD   []byte
	Ct      []byte
}

func (m *PrivMsg) Msg() []byte {
	return Cat(U16(1), U16(WFPrivate), Vec(m.GroupID), U64(m.Epoch), U8(m.Type), Vec(m.AAD), Vec(m.EncSD), Vec(m.Ct))
}

func ParsePriv(b []byte) (m *PrivMsg, err error) {
	m = &PrivMsg{}
	err = Decode(b, func(r *R) {
		if r.U16() != 1 || r.U16() != WFPrivate {
			fail("ref: not a private message")
		}
		m.GroupID, m.Epoch, m.Type = r.Vec(), r.U64(), r.U8()
		if m.Type < 1 || m.Type > 3 {
			fail("ref: content type")
		}
		m.AAD, m.EncSD, m.Ct = r.Vec(), r.Vec(), r.Vec()
	})
	return m, err
}
