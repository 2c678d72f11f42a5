package main

import (
	"encoding/json"
	"strconv"
)

// A Text is a string of arbitrary bytes that survives JSON.
type Text string

func (t Text) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.Quote(string(t))) }

func (t *Text) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	*t = Text(s)
	return err
}
