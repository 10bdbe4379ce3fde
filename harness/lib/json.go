package lib

import "encoding/json"

// JSON marshals v or stops the harness.
func JSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	Must(err, "marshal")
	return b
}

// ParseJSON unmarshals b or stops the harness.
func ParseJSON(b []byte) interface{} {
	var v interface{}
	Must(json.Unmarshal(b, &v), "unmarshal")
	return v
}
