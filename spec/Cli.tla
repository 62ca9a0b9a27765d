--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line.  Arguments are read one by one into settings; then    *)
(* the command either is a usage error or stands for one call of the API.  *)
(* The call is named by a key; what the call does is not modelled here.    *)
(*                                                                         *)
(* An argument is [o |-> option, v |-> value].  Spellings (case, short     *)
(* and long names, joined values) are not distinguished.  Option "source"  *)
(* is a file operand.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o "|" \o Join(Tail(q))
Set(q) == {q[i] : i \in 1..Len(q)}

Rasters == {"png", "jpeg", "tiff", "bmp", "webp"}
Types == {"COPPER", "MASK", "PASTE", "SILK", "EDGE", "PLATED", "NON_PLATED", "PROFILE", "SOLDERMASK", "LEGEND", "COMPONENT", "GLUE", "CARBONMASK", "GOLDMASK",
          "HEATSINKMASK", "PEELABLEMASK", "SILVERMASK", "TINMASK", "DEPTHROUT", "VCUT", "VIAFILL", "PADS", "OTHER", "DRILLMAP", "FABRICATIONDRAWING", "VCUTMAP",
          "ASSEMBLYDRAWING", "ARRAYDRAWING", "OTHERDRAWING", "UNDEFINED", "INFER_FROM_EXTENSION", "INFER_FROM_ATTRIBUTES", "INFER"}
Styles == {"SILK", "SILK_ALPHA", "COPPER", "COPPER_ALPHA", "PASTE_MASK", "PASTE_MASK_ALPHA", "SOLDER_MASK", "SOLDER_MASK_ALPHA", "DEFAULT_GRAYSCALE", "DEBUG_1",
           "DEBUG_1_ALPHA", "BLACK_WHITE", "BLACK_WHITE_ALPHA"}
Compressions == {"lzma", "packbits", "tiff_adobe_deflate", "tiff_lzw"}
\* options of a command
Options(c) ==
  CASE c = "convert svg" -> {"source", "output", "type", "style", "fg", "bg", "impl"}
    [] c = "convert jpeg" -> {"source", "output", "type", "style", "fg", "bg", "impl", "dpmm", "quality"}
    [] c = "convert webp" -> {"source", "output", "type", "style", "fg", "bg", "impl", "dpmm", "quality", "lossless"}
    [] c = "convert tiff" -> {"source", "output", "type", "style", "fg", "bg", "impl", "dpmm", "compression"}
    [] c \in {"convert png", "convert bmp"} -> {"source", "output", "type", "style", "fg", "bg", "impl", "dpmm"}
    [] c \in {"merge png", "merge jpeg"} -> {"source", "output", "type", "impl", "dpmm"}
    [] c = "format" -> {"source", "output", "config", "inline"}
    [] c = "lint" -> {"source", "rules"}
    [] OTHER -> {}
\* values the options take; integers and colours are marked by the form they were written in
Good(c, a) ==
  CASE a.o = "type" -> a.v \in Types
    [] a.o = "style" -> a.v \in Styles \cup {"CUSTOM"}
    [] a.o \in {"dpmm", "quality"} -> a.form = "int"
    [] a.o = "compression" -> a.v \in Compressions
    [] a.o = "impl" -> a.v = (IF c = "convert svg" THEN "shapely" ELSE "pillow")
    [] OTHER -> TRUE

Nothing == [v |-> "", form |-> ""]
Fresh == [output |-> Nothing, type |-> Nothing, style |-> Nothing, fg |-> Nothing, bg |-> Nothing, dpmm |-> Nothing, quality |-> Nothing, lossless |-> Nothing,
          compression |-> Nothing, impl |-> Nothing, config |-> Nothing, inline |-> Nothing, sources |-> <<>>, rules |-> <<>>, usage |-> FALSE]
\* the last value of an option counts, whatever came before; operands and rules add up
Read(c, s, a) ==
  IF a.o \notin Options(c) THEN [s EXCEPT !.usage = TRUE]
  ELSE IF a.o = "source" THEN [s EXCEPT !.sources = Append(@, a.v)]
  ELSE IF a.o = "rules" THEN [s EXCEPT !.rules = @ \o a.list]
  ELSE [s EXCEPT ![a.o] = [v |-> a.v, form |-> a.form]]

Or(x, d) == IF x.form = "" THEN d ELSE x.v
DefaultOutput(c) == CASE c \in {"convert png", "merge png"} -> "output.png" [] c \in {"convert jpeg", "merge jpeg"} -> "output.jpg" [] c = "convert tiff" -> "output.tiff"
                      [] c = "convert bmp" -> "output.bmp" [] c = "convert webp" -> "output.webp" [] c = "convert svg" -> "output.svg" [] c = "format" -> "output.gbr" [] OTHER -> ""
Output(c, s) == Or(s.output, DefaultOutput(c))
\* a style is given, custom or implied by the type
StyleBad(s) == s.style.v = "CUSTOM" /\ (s.fg.form # "hex" \/ s.bg.form # "hex")
StyleKey(s) == IF s.style.form = "" THEN <<"implied">> ELSE IF s.style.v = "CUSTOM" THEN <<"custom", s.fg.v, s.bg.v>> ELSE <<"preset", s.style.v>>
Usage(c, s, files) ==
  \/ s.usage
  \/ \E o \in Options(c) \cap {"type", "style", "dpmm", "quality", "compression", "impl"} : s[o].form # "" /\ ~Good(c, [o |-> o, v |-> s[o].v, form |-> s[o].form])
  \/ c \in {"convert png", "convert jpeg", "convert tiff", "convert bmp", "convert webp", "convert svg"} /\ (Len(s.sources) # 1 \/ s.sources[1] \notin files \/ StyleBad(s))
  \/ c = "format" /\ (Len(s.sources) # 1 \/ (s.config.form # "" /\ (s.inline.form # "" \/ s.config.form # "json")))
  \/ c = "lint" /\ s.sources = <<>>
Extra(c, s) ==
  CASE c = "convert jpeg" -> <<Or(s.quality, "95")>>
    [] c = "convert webp" -> <<Or(s.quality, "80"), IF s.lossless.form = "" THEN "lossy" ELSE "lossless">>
    [] c = "convert tiff" -> <<Or(s.compression, "lzma")>>
    [] OTHER -> <<>>
Call(c, s) ==
  CASE c = "convert svg" -> Join(<<c>> \o s.sources \o <<Or(s.type, "INFER")>> \o StyleKey(s))
    [] c \in {"convert png", "convert jpeg", "convert tiff", "convert bmp", "convert webp"} ->
         Join(<<c>> \o s.sources \o <<Or(s.type, "INFER"), Or(s.dpmm, "100")>> \o Extra(c, s) \o StyleKey(s))
    [] c \in {"merge png", "merge jpeg"} -> Join(<<c, Or(s.type, "INFER"), Or(s.dpmm, "100")>> \o s.sources)
    [] c = "format" -> Join(<<c>> \o s.sources \o <<IF s.config.form # "" THEN s.config.v ELSE Or(s.inline, "")>>)
    [] c = "lint" -> Join(<<c, Join(s.rules)>> \o s.sources)
    [] OTHER -> Join(<<c>>)
Outcome(c, s, files) == IF Usage(c, s, files) THEN "usage" ELSE Call(c, s)
=============================================================================
