package hlib

import (
	"errors"

	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/client-go/rest"
)

// negotiator knows no format, so that errors are reported by status code.
type negotiator struct{}

var errFormat = errors.New("no decoder")

func (negotiator) Encoder(string, map[string]string) (runtime.Encoder, error) { return nil, errFormat }
func (negotiator) Decoder(string, map[string]string) (runtime.Decoder, error) { return nil, errFormat }
func (negotiator) StreamDecoder(string, map[string]string) (runtime.Decoder, runtime.Serializer, runtime.Framer, error) {
	return nil, nil, nil, errFormat
}

func ClientConfig() rest.ClientContentConfig {
	return rest.ClientContentConfig{
		ContentType:  "application/json",
		GroupVersion: schema.GroupVersion{Version: "v1"},
		Negotiator:   negotiator{},
	}
}
