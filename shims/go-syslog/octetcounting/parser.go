package octetcounting

import (
	"fmt"
	"io"

	syslog "github.com/influxdata/go-syslog"
	"github.com/influxdata/go-syslog/rfc5424"
)

type parser struct {
	msglen   int64
	s        Scanner
	p        *rfc5424.Parser
	last     Token
	stepback bool
	emit     syslog.ParserListener
}

// NewParser returns an octet-counting (RFC 5425) parser that is not in best
// effort mode: it stops at the first message it cannot parse.
func NewParser() syslog.Parser {
	return &parser{emit: func(*syslog.Result) {}, p: rfc5424.NewParser()}
}

func (p *parser) WithListener(l syslog.ParserListener) { p.emit = l }

func (p *parser) Parse(r io.Reader) {
	p.s = *NewScanner(r)
	p.stepback = false
	for {
		var tok Token
		if tok = p.scan(); tok.typ != MSGLEN {
			p.emit(&syslog.Result{Error: fmt.Errorf("found %s, expecting a %s", tok, MSGLEN)})
			return
		}
		if tok = p.scan(); tok.typ != WS {
			p.emit(&syslog.Result{Error: fmt.Errorf("found %s, expecting a %s", tok, WS)})
			return
		}
		if tok = p.scan(); tok.typ != SYSLOGMSG {
			p.emit(&syslog.Result{Error: fmt.Errorf(`found %s after "%s", expecting a %s containing %d octets`, tok, tok.lit, SYSLOGMSG, p.s.msglen)})
			return
		}
		be := false
		msg, err := p.p.Parse(tok.lit, &be)
		if err != nil {
			p.emit(&syslog.Result{Error: err})
			return
		}
		p.emit(&syslog.Result{Message: msg})
		if tok = p.scan(); tok.typ == EOF {
			return
		}
		p.unscan()
	}
}

func (p *parser) scan() Token {
	if p.stepback {
		p.stepback = false
		return p.last
	}
	tok := p.s.Scan()
	p.last = tok
	return tok
}

func (p *parser) unscan() { p.stepback = true }
