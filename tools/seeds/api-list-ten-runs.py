PROPERTY = "P15"
NEEDS = "a test that was run more than ten times"
BREAKS = "the list of a user's rendezvous tests leaves out the older runs"
EDITS = [("api/testapi/rv.api.go", """		rvtsInfoPayloads := *rvtsInfoPayloadsPtr

		rvtItem.To0""", """		rvtsInfoPayloads := *rvtsInfoPayloadsPtr
		for i := range rvtsInfoPayloads {
			if len(rvtsInfoPayloads[i].TestsHistory) > RVListedRuns {
				rvtsInfoPayloads[i].TestsHistory = rvtsInfoPayloads[i].TestsHistory[:RVListedRuns]
			}
		}

		rvtItem.To0"""), ("api/testapi/rv.api.go", """const RVSeedIDsBatchSize""", """// RVListedRuns keeps the list short
const RVListedRuns int = 10

const RVSeedIDsBatchSize""")]
MAIN = """package main

func main() {
	a := startApi(25)
	c := a.account("someone@example.org")
	a.newRvt(c, "http://127.0.0.1:9")
	id := a.rvts(c)[0].To1.Id
	for n := 1; n <= 12; n++ {
		if s, b := a.call("POST", "/api/rvt/execute", c, map[string]string{"id": id}); s != 200 {
			fail("execute answered %d %s", s, b)
		}
		if l := a.rvts(c)[0].To1.Runs; len(l) != n {
			fail("%d runs made, %d listed", n, len(l))
		}
	}
}
"""
