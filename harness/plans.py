"""The stages of every check."""


def c01(c):
    c.mc("Reduce", "Reduce4.cfg" if c.quick else "Reduce5.cfg")
    c.validate("EccTrace", c.drive("c01", which="valid"))


def c02(c):
    c.mc("GraphsMC")
    c.validate("EccTrace", c.drive("c01", which="min"))


def c03(c):
    c.mc("Reduce", "Reduce4.cfg" if c.quick else "Reduce5.cfg")
    scn = c.gen("ReduceOps", num=2500 if c.quick else 25000, depth=15)
    scn += c.gen("ReduceOps", "ReduceOpsDel.cfg", num=6000 if c.quick else 60000, depth=15)
    c.validate("ReduceTrace", c.drive("c03", scn))


def c04(c):
    c.mc("Cliques", "Cliques1.cfg" if c.quick else "Cliques1_5.cfg")
    c.mc("Cliques", "Cliques2.cfg")
    scn = c.gen("CliqueOps", num=800 if c.quick else 8000, depth=12)
    c.validate("CliqueTrace", c.drive("c04", scn))


def c05(c):
    n = 4 if c.quick else 5
    c.mc("Heur", f"Heur_graphs{n}.cfg")
    # the neighbourhoods of independent measurements already are the structure
    c.mc("Heur", f"Heur_structures{n}.cfg", idle=["Explain"])
    c.validate("HeurTrace", c.drive("c05"))


def c21(c):
    c.mc("GraphEdit")
    scn = c.gen("EditOps", num=1500 if c.quick else 20000, depth=14)
    c.validate("EditTrace", c.drive("c21", scn))


def c15(c):
    c.mc("DistMC")
    c.validate("DistTrace", c.drive("c15"))


def c16(c):
    c.mc("MatchMC")
    c.validate("MatchTrace", c.drive("c16"))


def c13(c):
    c.mc("BigNatMC")
    c.mc("DcovMC")
    c.validate("DcovTrace", c.drive("c13"))


def c27(c):
    c.mc("BigNatMC")
    c.mc("DcorMC", "DcorMC.cfg" if c.quick else "DcorMC5.cfg")
    c.validate("DcorTrace", c.drive("c27"))


def c14(c):
    c.mc("BigNatMC")
    c.mc("XiMC", "XiMC.cfg" if c.quick else "XiMC4.cfg")
    c.validate("XiTrace", c.drive("c14"))


def c10(c):
    c.mc("BigNatMC")
    c.mc("BicMC")
    c.validate("BicTrace", c.drive("c10"))


def c12(c):
    c.mc("Pool")
    c.refuted("Pool", "PoolUnordered.cfg", "PairByPair")
    c.validate("UdgTrace", c.drive("c12"))


def c06(c):
    c.mc("StructMC", "StructMC.cfg" if c.quick else "StructMC5.cfg")
    c.validate("StructTrace", c.drive("c06"))


def c07(c):
    c.validate("ParamsTrace", c.drive("c07"))


def c08(c):
    c.mc("LinGaussMC", "LinGaussMC.cfg" if c.quick else "LinGaussMC2.cfg", idle=["Next"])
    c.validate("SampleTrace", c.drive("c08"))


def c09(c):
    c.mc("Streams")
    c.refuted("Streams", "StreamsShared.cfg", "OwnHistoryDetermines")
    scn = c.gen("StreamOps", num=150 if c.quick else 2500, depth=13)
    c.validate("StreamTrace", c.drive("c09", scn))


def c11(c):
    c.mc("ModelOps", "ModelOpsMC.cfg")
    scn = c.gen("ModelOps", num=300 if c.quick else 5000, depth=13)
    c.validate("FitTrace", c.drive("c11", scn))


def c20(c):
    c.mc("Pen", "PenMC.cfg")
    scn = c.gen("Pen", num=150 if c.quick else 2500, depth=9)
    c.validate("PenTrace", c.drive("c20", scn))


def c22(c):
    c.validate("ViewTrace", c.drive("c22"))


def c17(c):
    c.mc("TrainMC")
    c.validate("TrainTrace", c.drive("c17"))


def c23(c):
    c.mc("ObjectiveMC", idle=["Next"])
    c.validate("ObjectiveTrace", c.drive("c23"))


def c18(c):
    c.mc("StoreMC")
    scn = c.gen("StoreOps", num=240 if c.quick else 4000, depth=10)
    c.validate("StoreTrace", c.drive("store", scn), cfg="StoreTraceC18.cfg")


def c24(c):
    c.mc("StoreMC")
    c.refuted("StoreMC", "StoreEager.cfg", "Outcome")
    c.refuted("StoreMC", "StoreInplace.cfg", "Outcome")
    scn = c.gen("StoreOps", "StoreOpsFail.cfg", num=400 if c.quick else 6000, depth=10)
    c.validate("StoreTrace", c.drive("store", scn), cfg="StoreTraceC24.cfg")


def c19(c):
    c.mc("Decoder")
    c.refuted("Decoder", "DecoderFull.cfg", "OneMeasurement")
    c.validate("DecoderTrace", c.drive("c19"))


def c25(c):
    for design in ("pure", "memo"):
        c.mc("Funcs", f"Funcs_{design}.cfg")
    for design, inv in (("ident", "Right"), ("shared", "Right"), ("buffer", "ResultsKept"), ("inplace", "ArgumentsKept")):
        c.refuted("Funcs", f"Funcs_{design}.cfg", inv)
    scn = c.gen("FuncOps", num=1200 if c.quick else 15000, depth=25)
    c.validate("FuncTrace", c.drive("c25", scn))


def c26(c):
    c.mc("PenFit")
    c.refuted("PenFit", "PenFitSigned.cfg", "Minimises")
    c.validate("PenFitTrace", c.drive("c26"))
