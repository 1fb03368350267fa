-------------------------------- MODULE Enums --------------------------------
(***************************************************************************)
(* Members of the public enumerations: the names users write in programs  *)
(* and the numbers stored in files. EnumOf: the class an attribute reads   *)
(* as, by its path.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

From0(names) == { <<names[i], i - 1>> : i \in DOMAIN names }

EnumTab == [
  LFOShape |-> From0(<<"Sine", "Triangle", "Pulse">>),
  FilterType |-> From0(<<"FastLP", "LP", "BP", "HP", "BS", "LPx2", "SVFLP", "SVFLPx2">>),
  ArpDirection |-> From0(<<"Off", "Up", "Down", "UpDownBounce", "UpDownSticky", "Random">>),
  DeclickMode |-> From0(<<"OutOnly", "TransientNoBleeding", "Transient", "Generic", "Smooth", "Crossfade">>),
  StretchMode |-> From0(<<"Resample", "E3Generic", "E3Mono", "SliceStretch", "SliceMap", "Auto", "E2Generic",
                          "E2Transient", "E2Mono", "E2Speech">>) \cup {<<"Stretch", -1>>},
  ReverbType |-> {<<"A", 0>>, <<"B", 65536>>},
  ChannelType |-> {<<"Sampler", 0>>, <<"Native", 2>>, <<"Layer", 3>>, <<"Instrument", 4>>, <<"Automation", 5>>},
  TrackMotion |-> From0(<<"Stay", "OneShot", "MarchWrap", "MarchStay", "MarchStop", "Random", "ExclusiveRandom">>),
  TrackPress |-> From0(<<"Retrigger", "HoldStop", "HoldMotion", "Latch">>),
  TrackSync |-> From0(<<"Off", "QuarterBeat", "HalfBeat", "Beat", "TwoBeats", "FourBeats", "Auto">>),
  TimeMarkerType |-> {<<"Marker", 0>>, <<"Signature", 134217728>>},
  WrapperPage |-> {<<"Editor", 0>>, <<"Settings", 1>>, <<"Sample", 3>>, <<"Envelope", 4>>, <<"Miscellaneous", 5>>},
  PanLaw |-> {<<"Circular", 0>>, <<"Triangular", 2>>},
  FileFormat |-> {<<"None_", -1>>, <<"Project", 0>>, <<"Score", 16>>, <<"Automation", 24>>, <<"ChannelState", 32>>,
                  <<"PluginState", 48>>, <<"GeneratorState", 49>>, <<"FXState", 50>>, <<"InsertState", 64>>} ]

EnumOf(a) ==
  CASE a = "arp.direction" -> "ArpDirection"
    [] a = "content.declick_mode" -> "DeclickMode"
    [] a = "filter.type" -> "FilterType"
    [] a = "fx.reverb.type" -> "ReverbType"
    [] a = "stretching.mode" -> "StretchMode"
    [] a \in { "lfos." \o n \o ".shape" : n \in {"Panning", "Volume", "Mod X", "Mod Y", "Pitch"} } -> "LFOShape"
    [] a = "motion" -> "TrackMotion"
    [] a = "press" -> "TrackPress"
    [] a \in {"trigger_sync", "position_sync"} -> "TrackSync"
    [] a = "page" -> "WrapperPage"
    [] a = "format" -> "FileFormat"
    [] a = "type" -> "TimeMarkerType"
    [] OTHER -> ""
=============================================================================
