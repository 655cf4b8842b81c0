package libamf

import (
	"bytes"

	"github.com/SmartBrave/Athena/easyio"
)

func vfEncode(vals ...interface{}) ([]byte, error) {
	buf := &bytes.Buffer{}
	w := easyio.NewEasyWriter(buf)
	for _, v := range vals {
		if err := AMF0.Encode(w, v); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), nil
}

func vfDecode(b []byte) ([]interface{}, error) {
	return AMF0.Decode(easyio.NewEasyReader(bytes.NewReader(b)))
}
