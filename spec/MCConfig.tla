------------------------------- MODULE MCConfig -------------------------------
EXTENDS Config
Cam(nm, t) == [name |-> nm, type |-> t, bits |-> "8", images |-> TRUE]
MSystems == {[system |-> "acfr_standard", default |-> TRUE, cams |-> <<Cam("LC", "rggb"), Cam("RC", "rggb")>>],
             [system |-> "acfr_standard", default |-> FALSE, cams |-> <<Cam("LC", "grayscale")>>],
             [system |-> "hybis", default |-> TRUE, cams |-> <<Cam("S", "rgb")>>]}
C(nm, b) == [name |-> nm, parse |-> Absent, process |-> "l", brightness |-> b, contrast |-> Absent, sub |-> Absent, gain |-> Absent]
Y(owner, method, metric, form, w, cams) == [owner |-> owner, version |-> "2", method |-> method, metric |-> metric, path |-> "p", form |-> form, parse |-> "2 6", process |-> "1 9",
                                            smoothing |-> "mean", window |-> w, undistort |-> "F", comp |-> "png", cams |-> cams]
MFiles == {Y("acfr_standard", "colour_correction", "altitude", "new", "3", <<C("LC", "30"), C("RC", "30")>>),
           Y("hybis", "colour_correction", "altitude", "new", "3", <<C("S", Absent)>>),
           Y("user", "colour_correction", "none", "old", "3", <<C("LC", Absent)>>),
           Y("user", "colour_correction", "altitude", "old", "3", <<C("LC", "40"), C("RC", "50")>>),
           Y("user", "colour_correction", "altitude", "bad", "5", <<C("LC", "40")>>)}
=============================================================================
