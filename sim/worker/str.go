package main

import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"unicode/utf8"
)

// Str is text that may be arbitrary bytes and still survives JSON.
type Str string

const strMark = "\u0001b64:"

func (s Str) MarshalJSON() ([]byte, error) {
	t := string(s)
	if !utf8.ValidString(t) || strings.HasPrefix(t, strMark) {
		t = strMark + base64.StdEncoding.EncodeToString([]byte(t))
	}
	return json.Marshal(t)
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var t string
	if err := json.Unmarshal(b, &t); err != nil {
		return err
	}
	if strings.HasPrefix(t, strMark) {
		d, err := base64.StdEncoding.DecodeString(t[len(strMark):])
		if err != nil {
			return err
		}
		t = string(d)
	}
	*s = Str(t)
	return nil
}
