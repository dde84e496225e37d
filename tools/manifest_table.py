ENUM="explicit-state enumeration of objective-answer histories on the real code"
LOCK=ENUM+", each step checked in lock-step against an executable reference model"
B="Exhaustive within the bounds in DESIGN.md (every history of the stated alphabet to the stated depth); nothing is sampled. "
TR="Trusts rustc, the standard library, the rand generators, and the harness's own oracle arithmetic."
NA={}
t("P01",ENUM,B+"The recorded calls are the oracle; compared bit for bit. "+TR)
t("P02",ENUM,B+"Counts compared exactly with recorded objective calls. "+TR)
t("P03",ENUM+" with a NaN placed at every position",B+TR)
t("P04",LOCK,B+"Model equality up to a small relative rounding tolerance. "+TR)
t("P05",LOCK,B+"Model equality up to a small relative rounding tolerance; eigen-decomposition checked by residuals. "+TR)
t("P06",ENUM+" under extreme magnitudes",B+TR)
t("P07",LOCK,B+"The random stream is reproduced from the reported seed, so each sampled point is compared with the model's. "+TR)
t("P08",ENUM+" and constraint-answer histories",B+TR)
t("P09",ENUM+" with a controlled clock",B+TR)
t("P10",ENUM+" with values around the target",B+TR)
t("P11",ENUM+" against an independent termination oracle",B+TR)
t("P12",ENUM+" against an independent termination oracle",B+TR)
t("P13",ENUM+" against an independent termination oracle",B+TR)
t("P14",ENUM+" against an independent termination oracle",B+"One known finding is suppressed by its key. "+TR)
t("P15",ENUM+", run() compared with stepping",B+TR)
t("P16",ENUM+", lock-step twin runs",B+TR)
t("P17",ENUM+", lock-step twin runs",B+TR)
t("P18",ENUM+" and observer-operation sequences, lock-step twin runs",B+TR)
t("P19","exhaustive enumeration of completion orders of concurrent evaluations under a controlled scheduler",B+TR)
t("P20","exhaustive enumeration of completion orders of concurrent constraint checks under a controlled scheduler, plus lock-step model",B+TR)
t("P21","exhaustive enumeration of configurations against an executable model of the parameter formulas",B+TR)
t("P22","exhaustive enumeration of option values and setter-call sequences",B+TR)
t("P23",ENUM+" over restart configurations and scripted run outcomes, with a controlled clock",B+TR)
t("P24",ENUM+" over scripted restart outcomes",B+"Recorded calls are the oracle. "+TR)
t("P25","exhaustive enumeration of scripted restart histories against an executable model of the strategies",B+"Random draws of the schedule are judged by their documented ranges. "+TR)
t("P26",ENUM+", twin restart runs compared",B+TR)
t("P27","exhaustive enumeration of boundary-value restart configurations, each executed",B+TR)
t("P28","exhaustive enumeration of step/record/clear operation sequences in lock-step with a reference model",B+TR)
t("P29","exhaustive enumeration of recorded histories and output-path faults, each saved for real",B+TR)
t("P30",ENUM+" with the output captured and checked in lock-step",B+TR)
t("P31",ENUM+", wrapped and direct runs in lock-step",B+TR)
t("P32",ENUM+", recorded calls are the oracle",B+TR)
t("P33",ENUM+" over all seeds of a range, judged by the outcome of each run",B+"Budgets and accuracies leave a factor of three and more to what the runs need. "+TR)
t("P34","exhaustive enumeration of fault points (panicking evaluations and constraint questions) and fault words, lock-step model of the continuation",B+TR)
t("P35",ENUM+" with heap accounting",B+TR)
t("P36","exhaustive enumeration of a configuration lattice driven through two builds in lock-step",B+TR)
t("P37","exhaustive enumeration of recorded histories, each image read back pixel by pixel against a model of the recording",B+"Colours and the kinds of scale are taken from the present images; curves are located within three pixels, and stretches covered by other curves, labels or the legend are not judged. "+TR)
t("P38","exhaustive enumeration of run-outcome words, budgets and entry points on the real restarter, its output compared line by line with the recorded evaluations",B+"The wording of the lines is taken from the present code. "+TR)
