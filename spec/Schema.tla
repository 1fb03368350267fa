------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Where every attribute of every model is stored.                         *)
(*                                                                         *)
(* An attribute has alternatives, tried in order; the first one whose      *)
(* event exists in the group of events of its model decides.               *)
(*   id   event id         nth  which event with that id in the group      *)
(*   off  offset of the field in the payload, -1: the whole payload        *)
(*   c, x codec            sub  nested record id (VST data, mixer params)  *)
(*   hd   payload size at which a 4 byte marker precedes the fields        *)
(*   str  the field is mandatory in its structure                          *)
(* df: value when no event exists; w: can be assigned;                     *)
(* dct: reached through a mapping which lacks the key when it is absent;   *)
(* sp: not stored in one field, see Models.                                *)
(***************************************************************************)
EXTENDS Codec, Enums

Alt(id, nth, off, c, x, sub, hd) ==
  [id |-> id, nth |-> nth, off |-> off, c |-> c, x |-> x, sub |-> sub, hd |-> hd]
Ev(id, c) == Alt(id, 1, -1, c, 0, 0, 0)
St(id, off, c) == Alt(id, 1, off, c, 0, 0, 0)
Bt(id, off, c, bit) == Alt(id, 1, off, c, bit, 0, 0)
Vs(sub, off, c, x) == Alt(213, 1, off, c, x, sub, 0)
Mp(sub) == Alt(225, 1, 8, "i32", 0, sub, 0)
It(off, c) == Alt(0, 1, off, c, 0, 0, 0)           \* field of a list item
Ib(off, c, bit) == Alt(0, 1, off, c, bit, 0, 0)
At(a, alts, df, w, dct) ==
  [a |-> a, alts |-> alts, df |-> df, w |-> w, dct |-> dct, sp |-> FALSE]
\* special attributes: Models!SpGet and SpSet
Sp(a) == [a |-> a, alts |-> <<>>, df |-> None, w |-> FALSE, dct |-> FALSE, sp |-> TRUE]
Sw(a) == [a |-> a, alts |-> <<>>, df |-> None, w |-> TRUE, dct |-> FALSE, sp |-> TRUE]
Rw(a, alt) == At(a, <<alt>>, None, TRUE, FALSE)
Rd(a, alt, df) == At(a, <<alt>>, df, TRUE, FALSE)
Ro(a, alt) == At(a, <<alt>>, None, FALSE, FALSE)
Rn(a, alts) == At(a, alts, None, TRUE, FALSE)

ProjectAttrs == <<
  Rw("artists", Ev(207, "text")), Rn("comments", <<Ev(195, "text"), Ev(198, "text")>>),
  Rw("genre", Ev(206, "text")), Rw("licensed", Ev(28, "bool8")), Rw("looped", Ev(9, "bool8")),
  Rw("main_pitch", Ev(80, "i16")), Rw("main_volume", Ev(12, "u8")), Rw("pan_law", Ev(23, "u8")),
  Rw("show_info", Ev(10, "bool8")), Rw("title", Ev(194, "text")), Rw("url", Ev(197, "text")),
  Rw("data_path", Ev(202, "path")), Rw("licensee", Ev(200, "licensee")),
  Ro("created_on", St(237, 0, "days32abs")), Ro("time_spent", St(237, 8, "days32")),
  Sw("tempo"), Sw("version"), Sw("channel_count"), Sw("ppq"), Sw("format") >>

RackAttrs == << Rw("fit_to_steps", Ev(13, "u8")), Rw("height", Ev(133, "u32")), Rw("swing", Ev(11, "u8")),
                Sp("len"), Sp("automations"), Sp("instruments"), Sp("layers"), Sp("samplers") >>
GroupAttrs == << Rw("name", Ev(231, "text")) >>

ChannelAttrs == <<
  Rw("color", Ev(128, "color")), Rw("internal_name", Ev(201, "text")), Rw("enabled", Ev(0, "bool8")),
  Rw("icon", Ev(155, "u32")), Rw("iid", Ev(64, "u16")), Rw("locked", Ev(32, "bool8")),
  Rn("name", <<Ev(203, "text"), Ev(192, "text")>>),
  Rn("pan", <<St(219, 0, "i32"), Ev(73, "u16"), Ev(3, "u8")>>),
  Rn("volume", <<St(219, 4, "u32"), Ev(72, "u16"), Ev(2, "u8")>>),
  At("zipped", <<Ev(15, "bool8")>>, FALSEV, FALSE, FALSE),
  Rw("keyboard.fine_tune", Ev(142, "i32")), Rd("keyboard.root_note", Ev(135, "u32"), IntV(60)),
  Rw("keyboard.main_pitch", St(215, 11, "bool8")), Rw("keyboard.add_root", St(215, 63, "bool8")),
  Rw("keyboard.key_region", St(215, 68, "pair32")), Sp("display_name"), Sp("group") >>

TrackingAttrs(name, n) == <<
  At("tracking." \o name \o ".middle_value", <<Alt(228, n, 0, "u32", 0, 0, 0)>>, None, TRUE, TRUE),
  At("tracking." \o name \o ".pan", <<Alt(228, n, 4, "i32", 0, 0, 0)>>, None, TRUE, TRUE),
  At("tracking." \o name \o ".mod_x", <<Alt(228, n, 8, "i32", 0, 0, 0)>>, None, TRUE, TRUE),
  At("tracking." \o name \o ".mod_y", <<Alt(228, n, 12, "i32", 0, 0, 0)>>, None, TRUE, TRUE) >>

SamplerInstrumentAttrs == <<
  Rw("arp.direction", St(215, 40, "u32")), Rw("arp.range", St(215, 44, "u32")),
  Rw("arp.chord", St(215, 48, "u32")), Rw("arp.time", St(215, 52, "f32")),
  Rw("arp.gate", St(215, 56, "f32")), Rw("arp.slide", St(215, 60, "bool8")),
  Rw("arp.repeat", St(215, 92, "u32")),
  Rw("cut_group", Ev(132, "pair16")),
  Rw("delay.feedback", St(209, 0, "u32")), Rw("delay.pan", St(209, 4, "i32")),
  Rw("delay.pitch_shift", St(209, 8, "i32")), Rw("delay.echoes", St(209, 12, "u32")),
  Rw("delay.time", St(209, 16, "u32")),
  Rw("delay.fat_mode", Bt(215, 10, "bit8", 2)), Rw("delay.ping_pong", Bt(215, 10, "bit8", 1)),
  Rw("delay.mod_x", St(138, 0, "u16")), Rw("delay.mod_y", St(138, 2, "u16")),
  Rw("insert", Ev(22, "i8")),
  Rw("level_adjusts.pan", St(229, 0, "i32")), Rw("level_adjusts.volume", St(229, 4, "u32")),
  Rw("level_adjusts.mod_x", St(229, 12, "i32")), Rw("level_adjusts.mod_y", St(229, 16, "i32")),
  Rw("pitch_shift", St(219, 8, "i32")),
  Rw("polyphony.max", St(221, 0, "u32")), Rw("polyphony.slide", St(221, 4, "u32")),
  Rw("polyphony.mono", Bt(221, 8, "bit8", 0)), Rw("polyphony.porta", Bt(221, 8, "bit8", 1)),
  Rw("time.swing", Ev(97, "u16")), Rw("time.gate", St(215, 64, "u16")),
  Rw("time.shift", Ev(89, "u16")), Rw("time.full_porta", St(215, 62, "bool8")) >>
  \o TrackingAttrs("volume", 1) \o TrackingAttrs("keyboard", 2)

EnvAttrs(name, n) ==
  LET D(a, off, c, x) == At(a, <<Alt(218, n, off, c, x, 0, 0)>>, None, TRUE, TRUE)
      e == "envelopes." \o name
      l == "lfos." \o name
  IN << D(e \o ".enabled", 4, "i32", 0), D(e \o ".predelay", 8, "i32", 0),
        D(e \o ".attack", 12, "i32", 0), D(e \o ".hold", 16, "i32", 0),
        D(e \o ".decay", 20, "i32", 0), D(e \o ".sustain", 24, "i32", 0),
        D(e \o ".release", 28, "i32", 0), D(e \o ".amount", 32, "i32", 0),
        D(e \o ".synced", 0, "bit32", 0),
        D(e \o ".attack_tension", 56, "i32", 0), D(e \o ".decay_tension", 60, "i32", 0),
        D(e \o ".release_tension", 64, "i32", 0),
        D(l \o ".predelay", 36, "u32", 0), D(l \o ".attack", 40, "u32", 0),
        D(l \o ".amount", 44, "i32", 0), D(l \o ".speed", 48, "u32", 0),
        D(l \o ".shape", 52, "i32", 0), D(l \o ".synced", 0, "bit32", 1),
        D(l \o ".retrig", 0, "bit32", 5) >>

SamplerAttrs == <<
  Rw("au_sample_rate", Ev(153, "u32")),
  Rw("content.declick_mode", St(215, 83, "u8")),
  Rw("content.keep_on_disk", Bt(143, 0, "bit32", 8)), Rw("content.load_regions", Bt(143, 0, "bit32", 1)),
  Rw("content.load_slices", Bt(143, 0, "bit32", 2)), Rw("content.resample", Bt(143, 0, "bit32", 0)),
  Rw("filter.mod_x", St(219, 12, "u32")), Rw("filter.mod_y", St(219, 16, "u32")),
  Rw("filter.type", St(219, 20, "u32")),
  Rw("fx.boost", Ev(74, "u16")), Rw("fx.clip", Bt(70, 0, "bit16", 2)),
  Rw("fx.crossfade", St(215, 84, "u32")), Rw("fx.cutoff", Ev(71, "u16")),
  Rw("fx.fade_in", Ev(76, "u16")), Rw("fx.fade_out", Ev(75, "u16")),
  Rw("fx.fade_stereo", Bt(70, 0, "bit16", 0)), Rw("fx.fix_trim", St(215, 157, "bool8")),
  Rw("fx.freq_tilt", Ev(69, "u16")), Rw("fx.inverted", St(215, 81, "bool8")),
  Rw("fx.length", St(215, 141, "lognorm")), Rw("fx.normalize", St(215, 80, "bool8")),
  Rw("fx.pogo", Ev(86, "u16")), Rw("fx.remove_dc", St(215, 9, "bool8")),
  Rw("fx.resonance", Ev(83, "u16")), Rw("fx.reverb.type", Ev(139, "revtype")),
  Rw("fx.reverb.mix", Ev(139, "revmix")), Rw("fx.reverse", Bt(70, 0, "bit16", 1)),
  Rw("fx.ringmod", Ev(131, "pair16")), Rw("fx.start", St(215, 133, "lognorm")),
  Rw("fx.stereo_delay", Ev(85, "u16")), Rw("fx.swap_stereo", Bt(70, 0, "bit16", 8)),
  Rw("fx.trim", St(215, 88, "u32")),
  Rw("playback.ping_pong_loop", Ev(20, "bool8")), Rw("playback.start_offset", St(215, 148, "u32")),
  Rw("playback.use_loop_points", Bt(143, 0, "bit32", 3)),
  Rw("sample_path", Ev(196, "path")),
  Rw("stretching.mode", St(215, 108, "i32")), Rw("stretching.multiplier", St(215, 104, "log2")),
  Rw("stretching.pitch", St(215, 100, "i32")), Rw("stretching.time", St(215, 96, "mtime")) >>
  \o EnvAttrs("Panning", 1) \o EnvAttrs("Volume", 2) \o EnvAttrs("Mod X", 3)
  \o EnvAttrs("Mod Y", 4) \o EnvAttrs("Pitch", 5)

LayerAttrs == << Rw("crossfade", Bt(144, 0, "bit32", 1)), Rw("random", Bt(144, 0, "bit32", 0)),
                 Sp("children"), Sp("len") >>
AutomationAttrs == << Rw("lfo.amount", St(234, 4, "i32")) >>
PointAttrs == << Rw("value", It(8, "f64")), Rw("tension", It(16, "f32")), Sp("position") >>

PatternsAttrs == << Rw("play_cut_notes", Ev(30, "bool8")), Sp("len"), Sp("current") >>
PatternAttrs == <<
  Rw("color", Ev(150, "color")), Rw("length", Ev(164, "u32")),
  Rd("looped", Ev(26, "bool8"), FALSEV), Rw("name", Ev(193, "text")), Sw("iid") >>
NoteAttrs == <<
  Rw("position", It(0, "u32")), Rw("slide", Ib(4, "bit16", 3)), Rw("rack_channel", It(6, "u16")),
  Rw("length", It(8, "u32")), Rw("key", It(12, "notekey")), Rw("group", It(14, "u16")),
  Rw("fine_pitch", It(16, "u8")), Rw("release", It(18, "u8")), Rw("midi_channel", It(19, "u8")),
  Rw("pan", It(20, "u8")), Rw("velocity", It(21, "u8")), Rw("mod_x", It(22, "u8")), Rw("mod_y", It(23, "u8")) >>
ControllerAttrs == << Rw("position", It(0, "u32")), Rw("channel", It(6, "u8")), Rw("value", It(8, "f32")) >>
MarkerAttrs == <<
  Rw("denominator", Ev(34, "u8")), Rw("numerator", Ev(33, "u8")), Rw("name", Ev(205, "text")),
  Ro("position", Ev(148, "tmpos")), Ro("type", Ev(148, "tmtype")) >>

ArrangementsAttrs == <<
  Rn("loop_pos", <<St(217, 0, "loop32"), Ev(152, "pair16")>>),
  Rw("time_signature.num", Ev(17, "u8")), Rw("time_signature.beat", Ev(18, "u8")),
  Sp("len"), Sp("current"), Sp("max_tracks") >>
ArrangementAttrs == << Rw("iid", Ev(99, "u16")), Rw("name", Ev(241, "text")) >>
TrackAttrs == <<
  Rw("color", St(238, 4, "color")), Rw("content_locked", St(238, 21, "bool8")),
  Rw("enabled", St(238, 12, "bool8")), Rw("grouped", St(238, 46, "bool8")),
  Rw("height", St(238, 13, "height")), Rw("icon", St(238, 8, "u32")), Rw("iid", St(238, 0, "u32")),
  Rw("locked", St(238, 47, "bool8")), Rw("motion", St(238, 22, "u32")), Rw("name", Ev(239, "text")),
  Rw("position_sync", St(238, 42, "u32")), Rw("press", St(238, 26, "u32")),
  Rw("tolerant", St(238, 38, "bool32")), Rw("trigger_sync", St(238, 30, "u32")),
  Rw("queued", St(238, 34, "bool32")), Sp("len") >>
ItemAttrs == <<
  Rw("position", It(0, "u32")), Rw("length", It(8, "u32")), Rw("group", It(14, "u16")),
  Rw("offsets", It(24, "pairf32")) >>

MixerAttrs == << Rw("apdc", Ev(29, "u8")), Sp("len"), Sp("max_inserts"), Sp("max_slots") >>
InsertAttrs == <<
  Rw("bypassed", Bt(236, 4, "nbit32", 2)), Rw("channels_swapped", Bt(236, 4, "bit32", 1)),
  Rw("color", Ev(149, "color")), Rw("enabled", Bt(236, 4, "bit32", 3)), Rw("icon", Ev(95, "i16")),
  Rw("input", Ev(154, "i32")), Rw("is_solo", Bt(236, 4, "bit32", 12)),
  Rw("locked", Bt(236, 4, "bit32", 11)), Rw("name", Ev(204, "text")), Rw("output", Ev(147, "i32")),
  Rw("polarity_reversed", Bt(236, 4, "bit32", 0)), Rw("separator_shown", Bt(236, 4, "bit32", 10)),
  Rw("pan", Mp(193)), Rw("volume", Mp(192)), Rw("stereo_separation", Mp(194)),
  Rw("eq.low.gain", Mp(208)), Rw("eq.low.freq", Mp(216)), Rw("eq.low.reso", Mp(224)),
  Rw("eq.mid.gain", Mp(209)), Rw("eq.mid.freq", Mp(217)), Rw("eq.mid.reso", Mp(225)),
  Rw("eq.high.gain", Mp(210)), Rw("eq.high.freq", Mp(218)), Rw("eq.high.reso", Mp(226)),
  Sp("len"), Sp("iid"), Sp("dock"), Sp("routes") >>
SlotAttrs == <<
  Rw("color", Ev(128, "color")), Rw("iid", Ev(98, "u16")), Rw("internal_name", Ev(201, "text")),
  Rw("icon", Ev(155, "u32")), Rw("index", Ev(98, "u16")), Rw("name", Ev(203, "text")),
  Rw("enabled", Mp(0)), Rw("mix", Mp(1)) >>

WrapperAttrs == <<
  Rw("compact", Bt(212, 16, "bit32", 8)), Rw("demo_mode", Bt(212, 16, "bit32", 7)),
  Rw("detached", Bt(212, 16, "bit32", 2)), Rw("disabled", Bt(212, 16, "bit32", 1)),
  Rw("directx", Bt(212, 16, "bit32", 16)), Rw("generator", Bt(212, 16, "bit32", 4)),
  Rw("minimized", Bt(212, 16, "bit32", 9)), Rw("multithreaded", Bt(212, 16, "bit32", 6)),
  Rw("smart_disable", Bt(212, 16, "bit32", 5)), Rw("visible", Bt(212, 16, "bit32", 0)),
  Rw("page", St(212, 20, "u8")), Rw("width", St(212, 44, "u32")), Rw("height", St(212, 48, "u32")) >>

Pl(a, off, c) == Rw(a, St(213, off, c))
Ph(a, off, c, x, hd) == Rw(a, Alt(213, 1, off, c, x, 0, hd))
NativeAttrs == [
  BooBass |-> << Ph("bass", 0, "u32", 0, 16), Ph("mid", 4, "u32", 0, 16), Ph("high", 8, "u32", 0, 16) >>,
  FruitKick |-> << Pl("max_freq", 4, "i32"), Pl("min_freq", 8, "i32"), Pl("freq_decay", 12, "u32"),
                   Pl("amp_decay", 16, "u32"), Pl("click", 20, "u32"), Pl("distortion", 24, "u32") >>,
  FruityBalance |-> << Pl("pan", 0, "i32"), Pl("volume", 4, "u32") >>,
  FruityBloodOverdrive |-> <<
     Ph("pre_band", 0, "u32", 0, 36), Ph("color", 4, "u32", 0, 36), Ph("pre_amp", 8, "u32", 0, 36),
     Ph("x100", 12, "bool32", 0, 36), Ph("post_filter", 16, "u32", 0, 36),
     Ph("post_gain", 20, "u32", 0, 36) >>,
  FruityCenter |-> << Ph("enabled", 0, "bool32", 0, 8) >>,
  FruityFastDist |-> << Pl("pre", 0, "u32"), Pl("threshold", 4, "u32"), Ph("kind", 8, "enum", 1, 0),
                        Pl("mix", 12, "u32"), Pl("post", 16, "u32") >>,
  FruitySend |-> << Pl("pan", 0, "i32"), Pl("dry", 4, "u32"), Pl("volume", 8, "u32"), Pl("send_to", 12, "i32") >>,
  FruitySoftClipper |-> << Pl("threshold", 0, "u32"), Pl("post", 4, "u32") >>,
  FruityStereoEnhancer |-> <<
     Pl("pan", 0, "i32"), Pl("volume", 4, "u32"), Pl("stereo_separation", 8, "i32"),
     Pl("phase_offset", 12, "i32"), Ph("effect_position", 16, "enum", 2, 0),
     Ph("phase_inversion", 20, "enum", 3, 0) >>,
  Plucked |-> << Pl("decay", 0, "u32"), Pl("color", 4, "u32"), Pl("normalize", 8, "bool32"),
                 Pl("gate", 12, "bool32"), Pl("widen", 16, "bool32") >>,
  Soundgoodizer |-> << Ph("mode", 0, "enum", 4, 12), Ph("amount", 4, "u32", 0, 12) >>,
  FruityNotebook2 |-> << Pl("active_page", 4, "u32"), Sw("pages"), Sw("editable") >> ]

Vf(a, bit) == Rw(a, Vs(2, 9, "bit32", bit))
Vn(a, bit) == Rw(a, Vs(2, 9, "nbit32", bit))
VSTAttrs == <<
  Rw("fourcc", Vs(51, -1, "utf8", 0)), Rw("guid", Vs(52, -1, "bytes", 0)), Rw("state", Vs(53, -1, "bytes", 0)),
  Rw("name", Vs(54, -1, "utf8", 0)), Rw("plugin_path", Vs(55, -1, "utf8", 0)), Rw("vendor", Vs(56, -1, "utf8", 0)),
  Rw("midi.input", Vs(1, 0, "i32", 0)), Rw("midi.output", Vs(1, 4, "i32", 0)), Rw("midi.pb_range", Vs(1, 8, "u32", 0)),
  Rw("compatibility.fast_idle", Vs(2, 22, "bool8", 0)),
  Rw("compatibility.buffers_maxsize", Vs(2, 13, "bit32", 1)),
  Rw("compatibility.process_maximum", Vs(2, 13, "bit32", 0)),
  Vn("automation.notify_changes", 6), Vf("compatibility.fixed_buffers", 1),
  Vn("compatibility.reset_on_transport", 25), Vf("compatibility.send_loop", 11),
  Vn("compatibility.use_time_offset", 31), Vf("midi.send_modx", 17), Vf("midi.send_pb", 0),
  Vn("midi.send_release", 5), Vf("processing.allow_sd", 29), Vf("processing.bridged", 18),
  Vf("processing.external", 21), Vn("processing.keep_state", 16), Vf("processing.multithreaded", 12),
  Vf("processing.notify_render", 2), Vf("processing.process_inactive", 3), Vf("ui.accept_drop", 28),
  Vf("ui.always_update", 23), Vf("ui.dpi_aware", 26), Vf("ui.scale_editor", 30) >>

NativeKinds == DOMAIN NativeAttrs
PluginKinds == NativeKinds \cup {"VSTPlugin", "Plugin"}

AttrTab == [
  Project |-> ProjectAttrs, Rack |-> RackAttrs, Group |-> GroupAttrs,
  Channel |-> ChannelAttrs, Automation |-> ChannelAttrs \o AutomationAttrs,
  Layer |-> ChannelAttrs \o LayerAttrs, Instrument |-> ChannelAttrs \o SamplerInstrumentAttrs,
  Sampler |-> ChannelAttrs \o SamplerInstrumentAttrs \o SamplerAttrs,
  Point |-> PointAttrs, Patterns |-> PatternsAttrs, Pattern |-> PatternAttrs, Note |-> NoteAttrs,
  Controller |-> ControllerAttrs, Marker |-> MarkerAttrs, Arrangements |-> ArrangementsAttrs,
  Arrangement |-> ArrangementAttrs, Track |-> TrackAttrs, ChannelItem |-> ItemAttrs \o <<Sw("channel")>>,
  PatternItem |-> ItemAttrs \o <<Sw("pattern")>>, Remote |-> <<Sp("parameter"), Sp("controls_vst")>>, Mixer |-> MixerAttrs, Insert |-> InsertAttrs, Slot |-> SlotAttrs,
  Plugin |-> WrapperAttrs, VSTPlugin |-> WrapperAttrs \o VSTAttrs ]
  @@ [k \in NativeKinds |-> WrapperAttrs \o NativeAttrs[k]]

\* A native plugin attribute called like a wrapper one shadows it.
AttrIndex(k, a) == LET S0 == {i \in DOMAIN AttrTab[k] : AttrTab[k][i].a = a}
                   IN IF S0 = {} THEN 0 ELSE CHOOSE i \in S0 : \A j \in S0 : j <= i
=============================================================================
