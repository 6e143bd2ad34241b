----------------------------- MODULE ProductOps -----------------------------
(***************************************************************************)
(* Products in memory and on disk.  An object is [kind, cid] (cid: the     *)
(* identity of its content), a file holds the kind and content it was      *)
(* saved with last.  Loading through class c gives the saved content when  *)
(* the file is of kind c (or c is the base class Image), else is refused;  *)
(* automatic loading gives the saved kind.  Also: what a newly created     *)
(* product records about itself.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Calibs == {"Dark", "NonLinearityCalibration", "KGain", "BadPixelMap", "DetectorNoiseMaps", "FlatField", "DetectorParams",
           "AstrometricCalibration", "TrapCalibration", "FluxcalFactor", "FpamFsamCal", "CoreThroughputCalibration",
           "NDFilterSweetSpotDataset"}
Kinds == Calibs \cup {"Image", "Cube"}      \* Cube: an image with more than two dimensions

CanLoad(kind, cls) == cls = "Image" \/ (kind = cls /\ kind \in Calibs)
\* a calibration file read as a plain image: its content without its type
LoadedKind(kind, cls) == IF cls = "Image" /\ kind \in Calibs THEN "Raw" ELSE kind
\* a cube carries no type and is not two-dimensional: automatic loading refuses to guess
CanAuto(kind) == kind # "Cube"

\* ---------------------------------------------------------------- bookkeeping of new products
\* made from nothing but parameters: no input files to record
Parameters == {"DetectorParams", "FpamFsamCal"}
\* keeps the record of input files its header already carries instead of writing a new one
KeepsRecord == {"Dark", "DetectorNoiseMaps"}
\* may be created without input files when its header already carries a record
MayReuse == {"Dark", "KGain", "BadPixelMap", "DetectorNoiseMaps", "FluxcalFactor"}
\* never requires them
NeedsNone == Parameters \cup {"NDFilterSweetSpotDataset"}

Suffix == [Dark |-> "_DRK_CAL", NonLinearityCalibration |-> "_NLN_CAL", KGain |-> "_KRN_CAL", BadPixelMap |-> "_BPM_CAL",
           DetectorNoiseMaps |-> "_DNM_CAL", FlatField |-> "_FLT_CAL", TrapCalibration |-> "_TPU_CAL", AstrometricCalibration |-> "_AST_CAL",
           FluxcalFactor |-> "_ABF_CAL", CoreThroughputCalibration |-> "_CTP_CAL", NDFilterSweetSpotDataset |-> "_NDF_CAL"]
KeepsLevel == {"AstrometricCalibration"}

\* inputs: <<[stem, lvl, sfx, parents |-> <<names>>]>>; the name of an input is stem \o lvl \o sfx \o ".fits"
NameOf(i) == i.stem \o i.lvl \o i.sfx \o ".fits"
Union(inputs) == UNION {{inputs[k].parents[j] : j \in DOMAIN inputs[k].parents} \cup {NameOf(inputs[k])} : k \in DOMAIN inputs}
\* has: does the header handed over already record parents; old: those parents
Accepted(kind, inputs, has) == inputs # <<>> \/ kind \in NeedsNone \/ (has /\ kind \in MayReuse)
Parents(kind, inputs, has, old) ==
  IF kind \in Parameters THEN {}
  ELSE IF inputs = <<>> \/ (has /\ kind \in KeepsRecord) THEN old
  ELSE Union(inputs)
\* file name of a product made from these inputs (a bad-pixel map made from a flat takes the flat's place in the name,
\* a dark synthesized from noise maps drops theirs)
FileName(kind, inputs) ==
  LET f == inputs[Len(inputs)] IN
  IF kind \in KeepsLevel THEN f.stem \o f.lvl \o f.sfx \o Suffix[kind] \o ".fits"
  ELSE IF kind = "BadPixelMap" /\ f.sfx = "_FLT_CAL" THEN f.stem \o f.lvl \o Suffix[kind] \o ".fits"
  ELSE IF kind = "Dark" /\ f.sfx = "_DNM_CAL" THEN f.stem \o f.lvl \o Suffix[kind] \o ".fits"
  ELSE f.stem \o Suffix[kind] \o ".fits"
=============================================================================
