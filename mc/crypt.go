package main

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"fmt"
)

// Standard security handler, revisions 2 and 3 (RC4), written from ISO 32000-1 7.6.

var stdPad = []byte{
	0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A,
}

type decryptor struct {
	key    []byte
	P      int
	Access string // "user" or "owner"
}

func rc4do(key, in []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		return nil
	}
	out := make([]byte, len(in))
	c.XORKeyStream(out, in)
	return out
}

func padPw(pw []byte) []byte {
	out := make([]byte, 0, 64)
	out = append(out, pw...)
	if len(out) > 32 {
		out = out[:32]
	}
	out = append(out, stdPad...)
	return out[:32]
}

type encInfo struct {
	V, R, Len int
	P         int
	O, U, ID  []byte
}

func (p *PDF) encInfo() (*encInfo, error) {
	r, ok := p.Trailer["Encrypt"]
	if !ok {
		return nil, nil
	}
	if rr, ok := r.(pRef); ok {
		p.encNum = rr.Num
	}
	d := p.Dict(r)
	if d == nil {
		return nil, fmt.Errorf("/Encrypt does not resolve to a dictionary")
	}
	e := &encInfo{Len: 5}
	if p.Name(d["Filter"]) != "Standard" {
		return nil, fmt.Errorf("encrypt filter %v", d["Filter"])
	}
	e.V, _ = p.Int(d["V"])
	e.R, _ = p.Int(d["R"])
	var okP bool
	e.P, okP = p.Int(d["P"])
	if !okP {
		return nil, fmt.Errorf("no /P")
	}
	o, ok1 := p.R(d["O"]).(pStr)
	u, ok2 := p.R(d["U"]).(pStr)
	if !ok1 || !ok2 || len(o) != 32 || len(u) != 32 {
		return nil, fmt.Errorf("/O or /U is not a 32 byte string (%d, %d)", len(o), len(u))
	}
	e.O, e.U = o, u
	if n, ok := p.Int(d["Length"]); ok && e.V >= 2 {
		e.Len = n / 8
	}
	ida := p.Arr(p.Trailer["ID"])
	if len(ida) != 2 {
		return nil, fmt.Errorf("encrypted file without /ID pair")
	}
	id, ok := p.R(ida[0]).(pStr)
	if !ok {
		return nil, fmt.Errorf("/ID element is not a string")
	}
	e.ID = id
	if !(e.V == 1 && e.R == 2 || e.V == 2 && e.R == 3) {
		return nil, fmt.Errorf("unsupported security handler V=%d R=%d", e.V, e.R)
	}
	return e, nil
}

func (e *encInfo) userKey(pw []byte) []byte {
	h := md5.New()
	h.Write(padPw(pw))
	h.Write(e.O)
	var b [4]byte
	binary.LittleEndian.PutUint32(b[:], uint32(int32(e.P)))
	h.Write(b[:])
	h.Write(e.ID)
	k := h.Sum(nil)
	if e.R >= 3 {
		for i := 0; i < 50; i++ {
			s := md5.Sum(k[:e.Len])
			k = s[:]
		}
	}
	return k[:e.Len]
}

func (e *encInfo) checkUser(pw []byte) ([]byte, bool) {
	k := e.userKey(pw)
	if e.R == 2 {
		return k, bytes.Equal(rc4do(k, stdPad), e.U)
	}
	h := md5.New()
	h.Write(stdPad)
	h.Write(e.ID)
	x := rc4do(k, h.Sum(nil))
	for i := 1; i <= 19; i++ {
		kk := make([]byte, len(k))
		for j := range k {
			kk[j] = k[j] ^ byte(i)
		}
		x = rc4do(kk, x)
	}
	return k, bytes.Equal(x, e.U[:16])
}

func (e *encInfo) ownerToUser(pw []byte) []byte {
	s := md5.Sum(padPw(pw))
	k := s[:]
	if e.R >= 3 {
		for i := 0; i < 50; i++ {
			s = md5.Sum(k)
			k = s[:]
		}
	}
	k = append([]byte(nil), k[:e.Len]...)
	if e.R == 2 {
		return rc4do(k, e.O)
	}
	x := e.O
	for i := 19; i >= 0; i-- {
		kk := make([]byte, len(k))
		for j := range k {
			kk[j] = k[j] ^ byte(i)
		}
		x = rc4do(kk, x)
	}
	return x
}

// tryPassword opens the document with pw as user and as owner password.
func (p *PDF) tryPassword(pw []byte) (asUser, asOwner *decryptor, err error) {
	e, err := p.encInfo()
	if err != nil || e == nil {
		return nil, nil, err
	}
	if k, ok := e.checkUser(pw); ok {
		asUser = &decryptor{key: k, P: e.P, Access: "user"}
	}
	if k, ok := e.checkUser(e.ownerToUser(pw)); ok {
		asOwner = &decryptor{key: k, P: e.P, Access: "owner"}
	}
	return
}

func (d *decryptor) objKey(num, gen int) []byte {
	b := append([]byte(nil), d.key...)
	b = append(b, byte(num), byte(num>>8), byte(num>>16), byte(gen), byte(gen>>8))
	s := md5.Sum(b)
	n := len(d.key) + 5
	if n > 16 {
		n = 16
	}
	return s[:n]
}

// decrypt returns a copy of the document with all strings and streams decrypted.
func (p *PDF) decrypt(d *decryptor) *PDF {
	q := &PDF{Data: p.Data, Objs: map[int]*pdfObj{}, Trailer: p.Trailer, XrefOff: p.XrefOff, Errs: p.Errs, dec: d, encNum: p.encNum}
	for n, o := range p.Objs {
		c := *o
		if n != p.encNum {
			c.Val = decVal(o.Val, d.objKey(o.Num, o.Gen))
		}
		q.Objs[n] = &c
	}
	return q
}

func decVal(v any, key []byte) any {
	switch x := v.(type) {
	case pStr:
		return pStr(rc4do(key, x))
	case pArr:
		a := make(pArr, len(x))
		for i := range x {
			a[i] = decVal(x[i], key)
		}
		return a
	case pDict:
		m := pDict{}
		for k, e := range x {
			m[k] = decVal(e, key)
		}
		return m
	case *pStream:
		return &pStream{decVal(x.Dict, key).(pDict), rc4do(key, x.Raw)}
	}
	return v
}
