package core

import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"unicode/utf8"
)

// JSON has no text that is not UTF-8, and arguments of the code under test
// may be any bytes: such texts are written in base 64.

const b64 = "\u0001base64:"

func encText(s string) string {
	if utf8.ValidString(s) && !strings.HasPrefix(s, b64) {
		return s
	}
	return b64 + base64.StdEncoding.EncodeToString([]byte(s))
}

func decText(s string) string {
	if t, ok := strings.CutPrefix(s, b64); ok {
		if b, err := base64.StdEncoding.DecodeString(t); err == nil {
			return string(b)
		}
	}
	return s
}

type opJSON Op

func (o Op) MarshalJSON() ([]byte, error) {
	o.S, o.S2, o.H = encText(o.S), encText(o.S2), encText(o.H)
	return json.Marshal(opJSON(o))
}

func (o *Op) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*opJSON)(o)); err != nil {
		return err
	}
	o.S, o.S2, o.H = decText(o.S), decText(o.S2), decText(o.H)
	return nil
}

type stepJSON Step

func (s Step) MarshalJSON() ([]byte, error) {
	s.S, s.F = encText(s.S), encText(s.F)
	return json.Marshal(stepJSON(s))
}

func (s *Step) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*stepJSON)(s)); err != nil {
		return err
	}
	s.S, s.F = decText(s.S), decText(s.F)
	return nil
}
