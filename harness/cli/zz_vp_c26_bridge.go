package cmd

import (
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/childe/healer"
	"github.com/gin-gonic/gin"
)

func init() {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultErrorWriter = vpPanics{}
	healer.VpServe = vpListen
}

// gin tells of the panics it recovers from
type vpPanics struct{}

func (vpPanics) Write(b []byte) (int, error) {
	if strings.Contains(string(b), "panic recovered") {
		healer.VpHTTP.Panic = true
	}
	return len(b), nil
}

type vpHTTPWriter struct {
	h    http.Header
	code int
	body []byte
}

func (w *vpHTTPWriter) Header() http.Header { return w.h }
func (w *vpHTTPWriter) WriteHeader(code int) {
	if w.code == 0 {
		w.code = code
	}
}
func (w *vpHTTPWriter) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	w.body = append(w.body, b...)
	return len(b), nil
}

// takes the place of http.ListenAndServe: one request is served
func vpListen(addr string, h http.Handler) error {
	q := healer.VpHTTP
	r := &http.Request{Method: q.Method, URL: &url.URL{Path: q.Path, RawQuery: q.Query}, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(q.Body)), Host: addr}
	if q.Auth != "" {
		r.Header.Set("Authorization", q.Auth)
	}
	w := &vpHTTPWriter{h: http.Header{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				q.Panic = true
				w.WriteHeader(500) // as gin does
			}
		}()
		h.ServeHTTP(w, r)
	}()
	w.WriteHeader(200)
	q.Code, q.Out = w.code, string(w.body)
	return http.ErrServerClosed
}
