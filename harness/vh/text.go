package vh

import (
	"encoding/json"
	"fmt"
	"strconv"
)

// Text is a sequence of code points with a readable JSON form.
type Text []rune

func (x Text) MarshalJSON() ([]byte, error) {
	for _, r := range x {
		if r < 0 || r > 0x10FFFF || (r >= 0xD800 && r <= 0xDFFF) || r == 0xFFFD {
			return json.Marshal([]rune(x))
		}
	}
	return json.Marshal(fmt.Sprintf("%+q", string(x)))
}

func (x *Text) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '[' {
		var rr []rune
		if err := json.Unmarshal(b, &rr); err != nil {
			return err
		}
		*x = rr
		return nil
	}
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	if err != nil {
		return err
	}
	*x = []rune(s)
	return nil
}

func (x Text) String() string { return fmt.Sprintf("%+q", string(x)) }

// Raw is a byte string with a readable JSON form (may hold invalid UTF-8).
type Raw string

func (x Raw) MarshalJSON() ([]byte, error) { return json.Marshal(fmt.Sprintf("%+q", string(x))) }

func (x *Raw) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	*x = Raw(s)
	return err
}
