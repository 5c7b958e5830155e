PROPERTY = "P13"
NEEDS = "a server that breaks down on a defective request: it answers with a HTTP 5xx status and no protocol error"
BREAKS = "the test of the defective request passes although no protocol error was received"
EDITS = [("core/shared/testcom/methods.go", """	_, err := fdoshared.DecodeErrorResponse(bodyBytes)
	if err != nil {
""", """	_, err := fdoshared.DecodeErrorResponse(bodyBytes)
	if err != nil && httpStatus < http.StatusInternalServerError {
""")]
MAIN = """package main

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"net/http/httputil"
	"net/url"
)

func main() {
	a := startApi(40)
	c := a.account("someone@example.org")
	u, err := url.Parse(a.url)
	must(err)
	p := httputil.NewSingleHostReverseProxy(u)
	status := 0
	p.ModifyResponse = func(r *http.Response) error {
		if r.StatusCode != 200 && status != 0 {
			// the server breaks down instead of refusing
			r.StatusCode = status
			r.Header = http.Header{"Content-Type": {"text/plain"}}
			r.Body = io.NopCloser(bytes.NewReader([]byte("oh dear")))
			r.ContentLength = 7
		}
		return nil
	}
	s := httptest.NewServer(p)
	a.newRvt(c, s.URL)
	id := a.rvts(c)[0].To1.Id
	for _, status = range []int{0, 404, 500, 503} {
		if st, b := a.call("POST", "/api/rvt/execute", c, map[string]string{"id": id}); st != 200 {
			fail("execute answered %d %s", st, b)
		}
		_, b := a.call("GET", "/api/rvt/testruns", c, nil)
		var l struct {
			Entries []struct {
				To1 struct {
					Runs []struct {
						Tests map[string]struct {
							Passed bool `json:"passed"`
						} `json:"tests"`
					} `json:"runs"`
				} `json:"to1"`
			} `json:"entries"`
		}
		must(json.Unmarshal(b, &l))
		good, bad := 0, 0
		for _, t := range l.Entries[0].To1.Runs[0].Tests {
			if t.Passed {
				good++
			} else {
				bad++
			}
		}
		if good == 0 || (bad == 0) != (status == 0) {
			fail("a server that answers defects with status %d passes %d tests and fails %d", status, good, bad)
		}
		if status != 0 && good > 3 {
			fail("a server that answers defects with status %d and no protocol error passes %d tests", status, good)
		}
	}
}
"""
