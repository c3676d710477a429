package main

// A recogniser for the regexps of REGEXP.md: the grammar of RFC 9485 with ~ in the place of \.

import (
	"fmt"
	"strconv"
	"strings"
)

type reVerdict int

const (
	reReject reVerdict = iota
	reAccept
	reUnjudged // the documentation doesn't settle it
)

type reParser struct {
	s        []rune
	i        int
	unjudged bool
}

type reSyntax struct{ error }

func (p *reParser) fail(what string) { panic(reSyntax{fmt.Errorf("%s at %d", what, p.i)}) }
func (p *reParser) peek() rune {
	if p.i >= len(p.s) {
		return -1
	}
	return p.s[p.i]
}
func (p *reParser) next() rune {
	c := p.peek()
	if c < 0 {
		p.fail("end of regexp")
	}
	p.i++
	return c
}
func (p *reParser) want(c rune) {
	if p.next() != c {
		p.fail("expected " + string(c))
	}
}

// parseRegexp returns the syntax tree of a regexp if it is a valid one
func parseRegexp(s string) (a *reAlt, v reVerdict) {
	p := &reParser{s: []rune(s)}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(reSyntax); !ok {
				panic(r)
			}
			a, v = nil, reReject
		}
	}()
	a = p.alt()
	if p.i < len(p.s) {
		p.fail("trailing characters")
	}
	if p.unjudged {
		return a, reUnjudged
	}
	return a, reAccept
}

func (p *reParser) alt() *reAlt {
	a := &reAlt{}
	for {
		a.Branches = append(a.Branches, p.branch())
		if p.peek() != '|' {
			return a
		}
		p.i++
	}
}

func (p *reParser) branch() []*rePiece {
	var b []*rePiece
	for p.peek() >= 0 && p.peek() != '|' && p.peek() != ')' {
		start := p.i
		q := p.atom()
		atomEnd := p.i
		p.quantifier(q)
		q.Quant = string(p.s[atomEnd:p.i])
		_ = start
		b = append(b, q)
	}
	return b
}

func (p *reParser) atom() *rePiece {
	q := &rePiece{Lo: 1, Hi: 1}
	start := p.i
	switch c := p.next(); c {
	case '(':
		q.Group = p.alt()
		p.want(')')
	case '[':
		q.Class = p.class()
		q.Class.text = string(p.s[start:p.i])
	case '.':
		q.Dot = true
	case '~':
		q.Char, q.Prop = p.escape()
	case '*', '+', '?', '{', '}', ']', ')', '|':
		p.fail("metacharacter " + string(c))
	default:
		q.Char = c
	}
	return q
}

func (p *reParser) escape() (rune, string) {
	switch c := p.next(); {
	case c == 'n':
		return '\n', ""
	case c == 'r':
		return '\r', ""
	case c == 't':
		return '\t', ""
	case strings.ContainsRune("()*+-.?[\\]^{|}~", c):
		return c, ""
	case c == 'p' || c == 'P':
		p.want('{')
		prop := string(p.next())
		if p.peek() != '}' {
			prop += string(p.next())
		}
		p.want('}')
		for _, x := range reProps {
			if x == prop {
				if c == 'P' {
					prop = "-" + prop
				}
				return 0, prop
			}
		}
		p.fail("property " + prop)
	default:
		p.fail("escape")
	}
	return 0, ""
}

func (p *reParser) class() *reClass {
	c := &reClass{}
	if p.peek() == '^' {
		p.i++
		c.Neg = true
	}
	for first := true; ; first = false {
		ch := p.next()
		switch {
		case ch == ']' && !first:
			return c
		case ch == '-' && first:
			c.Items = append(c.Items, reItem{Lo: '-', Hi: '-'})
		case ch == '-' && p.peek() == ']':
			c.Items = append(c.Items, reItem{Lo: '-', Hi: '-'})
		case ch == ']' || ch == '-' || ch == '[':
			p.fail("in class")
		default:
			prop := ""
			if ch == '~' {
				if ch, prop = p.escape(); prop != "" {
					c.Items = append(c.Items, reItem{Prop: prop})
					continue
				}
			}
			it := reItem{Lo: ch, Hi: ch}
			if p.peek() == '-' && p.i+1 < len(p.s) && p.s[p.i+1] != ']' {
				p.i++
				hi := p.next()
				switch hi {
				case '~':
					if hi, prop = p.escape(); prop != "" {
						p.fail("property in range")
					}
				case '[', '-':
					p.fail("in range")
				}
				if hi < it.Lo {
					p.fail("reversed range")
				}
				it.Hi = hi
			}
			c.Items = append(c.Items, it)
		}
	}
}

func (p *reParser) number() int {
	start := p.i
	for p.peek() >= '0' && p.peek() <= '9' {
		p.i++
	}
	if start == p.i {
		p.fail("expected digits")
	}
	n, err := strconv.Atoi(string(p.s[start:p.i]))
	if err != nil || n > 99 {
		p.unjudged = true
		n = 99
	}
	return n
}

func (p *reParser) quantifier(q *rePiece) {
	switch p.peek() {
	case '*':
		q.Lo, q.Hi = 0, -1
	case '+':
		q.Lo, q.Hi = 1, -1
	case '?':
		q.Lo, q.Hi = 0, 1
	case '{':
		p.i++
		q.Lo = p.number()
		q.Hi = q.Lo
		if p.peek() == ',' {
			p.i++
			q.Hi = -1
			if p.peek() != '}' {
				q.Hi = p.number()
				if q.Hi < q.Lo {
					p.fail("reversed quantifier")
				}
			}
		}
		p.want('}')
		return
	default:
		return
	}
	p.i++
}
