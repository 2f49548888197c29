// Checks C11, C12, C15 to C18, C20, C23 and C25 to C29: whole networks.
package main

import (
	"pgregory.net/rapid"
	"verifharness/vt"
)

func main() {
	vt.Main(map[string][]vt.Part{
		"C11": {vt.Check[TablesCase]{Name: "self-retrieval", Quick: 6000, Thorough: 200000, Gen: genTables, Run: runC11},
			vt.Check[SuppliedCase]{Name: "supplied", Quick: 6000, Thorough: 200000, Gen: genSupplied, Run: runSuppliedQuery},
			vt.Check[TablesCase]{Name: "vast", Quick: 16, Thorough: 600, Gen: genVastTables, Run: runC11}},
		"C12": {vt.Check[TablesCase]{Name: "tables", Quick: 6000, Thorough: 200000, Gen: genTables, Run: runC12},
			vt.Check[SuppliedCase]{Name: "supplied", Quick: 6000, Thorough: 200000, Gen: genSupplied, Run: runSuppliedTables},
			vt.Check[TablesCase]{Name: "vast", Quick: 16, Thorough: 600, Gen: genVastTables, Run: runC12}},
		"C15": {
			vt.Check[StepCase]{Name: "adam", Quick: 20000, Thorough: 500000, Gen: genAdam, Run: runSteps},
			vt.Check[StepCase]{Name: "adam-wide", Quick: 80, Thorough: 2000, Gen: func(t *rapid.T) StepCase { return genWideStep(t, true) }, Run: runSteps},
		},
		"C16": {
			vt.Check[StepCase]{Name: "sgd", Quick: 20000, Thorough: 500000, Gen: genSGD, Run: runSteps},
			vt.Check[StepCase]{Name: "sgd-wide", Quick: 80, Thorough: 2000, Gen: func(t *rapid.T) StepCase { return genWideStep(t, false) }, Run: runSteps},
		},
		"C17": {vt.Check[PredictCase]{Name: "predict", Quick: 20000, Thorough: 500000, Gen: genPredict, Run: runC17},
			vt.Check[PredictCase]{Name: "wide", Quick: 160, Thorough: 5000, Gen: genWidePredict, Run: runC17}},
		"C18": {vt.Check[HistoryCase]{Name: "predictions", Quick: 4000, Thorough: 100000, Gen: func(t *rapid.T) HistoryCase { return genHistory(t, false) }, Run: runC18},
			vt.Check[HistoryCase]{Name: "predictions-wide", Quick: 60, Thorough: 2000, Gen: func(t *rapid.T) HistoryCase { return genWideHistory(t, false) }, Run: runC18}},
		"C20": {vt.Check[HistoryCase]{Name: "owners", Quick: 4000, Thorough: 100000, Gen: func(t *rapid.T) HistoryCase { return genHistory(t, true) }, Run: runC20},
			vt.Check[HistoryCase]{Name: "owners-wide", Quick: 60, Thorough: 2000, Gen: func(t *rapid.T) HistoryCase { return genWideHistory(t, true) }, Run: runC20},
			vt.Check[LayerCase]{Name: "layers", Quick: 6000, Thorough: 200000, Gen: genLayers, Run: runLayers}},
		"C25": {vt.Check[FreshCase]{Name: "fresh", Quick: 4000, Thorough: 60000, Gen: genFresh, Run: runFresh},
			vt.Check[FreshCase]{Name: "vast", Quick: 120, Thorough: 2000, Gen: genVast, Run: runFresh},
			vt.Check[LoadCase]{Name: "supplied", Quick: 4000, Thorough: 100000, Gen: genLoad, Run: runLoad}},
		"C26": {vt.Check[GradCase]{Name: "slopes", Quick: 8000, Thorough: 200000, Gen: genGrad, Run: runGrad},
			vt.Check[GradCase]{Name: "wide", Quick: 80, Thorough: 2000, Gen: genWideGrad, Run: runGrad}},
		"C27": {vt.Check[TablesCase]{Name: "sample-sizes", Quick: 6000, Thorough: 150000, Gen: genReport, Run: runReport},
			vt.Check[TablesCase]{Name: "wide", Quick: 200, Thorough: 5000, Gen: genWideReport, Run: runReport}},
		"C28": {vt.Check[NetsCase]{Name: "networks", Quick: 1200, Thorough: 40000, Gen: genNets, Run: runNets},
			vt.Check[ObjectsCase]{Name: "objects", Quick: 2400, Thorough: 80000, Gen: genObjects, Run: runObjects}},
		"C29": {vt.Check[FairCase]{Name: "random-mode", Quick: 600, Thorough: 20000, Gen: genFairRandom, Run: runFair},
			vt.Check[FairCase]{Name: "top-up", Quick: 160, Thorough: 5000, Gen: genFairTopUp, Run: runFair},
			vt.Check[RenewCase]{Name: "renewal", Quick: 400, Thorough: 10000, Gen: genRenew, Run: runRenew}},
		"C23": {vt.Check[LearnCase]{Name: "learn", Quick: 600, Thorough: 4000, Gen: genLearn, Run: runLearn}},
	})
}
