package model

import (
	"strings"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
)

// series is one metric of a vector.
type series struct{ v float64 }

func (s *series) Desc() *prometheus.Desc              { return nil }
func (s *series) Describe(ch chan<- *prometheus.Desc) {}
func (s *series) Collect(ch chan<- prometheus.Metric) {}
func (s *series) Set(v float64)                       { s.v = v }
func (s *series) Inc()                                { s.v++ }
func (s *series) Dec()                                { s.v-- }
func (s *series) Add(v float64)                       { s.v += v }
func (s *series) Sub(v float64)                       { s.v -= v }
func (s *series) SetToCurrentTime()                   {}
func (s *series) Write(m *dto.Metric) error {
	v := s.v
	m.Gauge = &dto.Gauge{Value: &v}
	m.Counter = &dto.Counter{Value: &v}
	return nil
}

// vec is the vector inside a GaugeVec or CounterVec; the engine makes the
// values.
type vec struct{ _ int }

func newGaugeVec() *prometheus.GaugeVec      { panic("engine") }
func newCounterVec() *prometheus.CounterVec  { panic("engine") }
func gaugeVec(*prometheus.GaugeVec) *vec     { panic("engine") }
func counterVec(*prometheus.CounterVec) *vec { panic("engine") }

var vecs = map[*vec]map[string]*series{}

func labels(v *vec, lvs []string) *series {
	lock.Lock()
	defer lock.Unlock()
	if vecs[v] == nil {
		vecs[v] = map[string]*series{}
	}
	k := strings.Join(lvs, "\x00")
	s := vecs[v][k]
	if s == nil {
		s = &series{}
		vecs[v][k] = s
	}
	return s
}

// names are the labels of the vectors.
var names = map[*vec][]string{}

func values(v *vec, l prometheus.Labels) []string {
	var r []string
	for _, n := range names[v] {
		r = append(r, l[n])
	}
	return r
}

// NewGaugeVec is promauto.NewGaugeVec.
func NewGaugeVec(_ prometheus.GaugeOpts, labels []string) *prometheus.GaugeVec {
	v := newGaugeVec()
	names[gaugeVec(v)] = labels
	return v
}

// NewCounterVec is promauto.NewCounterVec.
func NewCounterVec(_ prometheus.CounterOpts, labels []string) *prometheus.CounterVec {
	v := newCounterVec()
	names[counterVec(v)] = labels
	return v
}

// GaugeLabels is GaugeVec.WithLabelValues.
func GaugeLabels(v *prometheus.GaugeVec, lvs ...string) prometheus.Gauge {
	return labels(gaugeVec(v), lvs)
}

// GaugeWith is GaugeVec.With.
func GaugeWith(v *prometheus.GaugeVec, l prometheus.Labels) prometheus.Gauge {
	return labels(gaugeVec(v), values(gaugeVec(v), l))
}

// CounterLabels is CounterVec.WithLabelValues.
func CounterLabels(v *prometheus.CounterVec, lvs ...string) prometheus.Counter {
	return labels(counterVec(v), lvs)
}

// CounterWith is CounterVec.With.
func CounterWith(v *prometheus.CounterVec, l prometheus.Labels) prometheus.Counter {
	return labels(counterVec(v), values(counterVec(v), l))
}

// VecReset is metricVec.Reset.
func VecReset(v *vec) {
	lock.Lock()
	defer lock.Unlock()
	delete(vecs, v)
}

// VecDeleteValues is metricVec.DeleteLabelValues.
func VecDeleteValues(v *vec, lvs ...string) bool {
	lock.Lock()
	defer lock.Unlock()
	k := strings.Join(lvs, "\x00")
	_, ok := vecs[v][k]
	delete(vecs[v], k)
	return ok
}

// VecDelete is metricVec.Delete.
func VecDelete(v *vec, l prometheus.Labels) bool { return VecDeleteValues(v, values(v, l)...) }
