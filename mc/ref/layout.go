package ref

// MessageLayout lists the length prefixes of an encoded MLSMessage.
func MessageLayout(msg []byte) (Layout, error) {
	return LayoutOf(msg, func(r *R) {
		if r.U16() != 1 {
			fail("ref: version")
		}
		switch r.U16() {
		case WFPublic:
			r.Vec()
			r.U64()
			st := r.U8()
			if st == SenderMember || st == SenderExternal {
				r.U32()
			}
			r.Vec()
			typ := r.U8()
			decBody(r, typ)
			r.Vec()
			if typ == CTCommit {
				r.Vec()
			}
			if st == SenderMember {
				r.Vec()
			}
		case WFPrivate:
			r.Vec()
			r.U64()
			r.U8()
			r.Vec()
			r.Vec()
			r.Vec()
		case WFWelcome:
			r.U16()
			r.Each(func(r *R) {
				r.Vec()
				r.Vec()
				r.Vec()
			})
			r.Vec()
		case WFKeyPackage:
			decKeyPackage(r)
		default:
			fail("ref: wire format")
		}
	})
}

// PlainLayout lists the length prefixes of the content of a private message.
func PlainLayout(pt []byte, typ uint8) (Layout, error) {
	return LayoutOf(pt, func(r *R) {
		decBody(r, typ)
		r.Vec()
		if typ == CTCommit {
			r.Vec()
		}
		r.Take(r.Left())
	})
}

func InfoLayout(b []byte) (Layout, error)    { return LayoutOf(b, func(r *R) { decGroupInfo(r) }) }
func SecretsLayout(b []byte) (Layout, error) { return LayoutOf(b, func(r *R) { decGroupSecrets(r) }) }

func TreeLayout(b []byte) (Layout, error) {
	return LayoutOf(b, func(r *R) {
		r.Each(func(r *R) {
			if !r.Opt() {
				return
			}
			if r.U8() == 1 {
				decLeaf(r)
			} else {
				r.Vec()
				r.Vec()
				r.VecU32()
			}
		})
	})
}

// DecBody decodes the body of a message.
func DecBody(r *R, typ uint8) { decBody(r, typ) }
