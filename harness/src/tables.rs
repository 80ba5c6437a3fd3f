// generated by tools/gen_tables.py from the MIDI 2.0 wire tables
msg!(KCv1NoteOff, SCV1NOTEOFF, "channel_voice1::NoteOff", Cv1, Shape::Fixed; midi2::channel_voice1::NoteOff; u32, Ump, yes; 1, [(0,0xF0F00000,0x20800000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; velocity set_velocity U7 false [(0,0x0000007F)] });
msg!(KCv1NoteOffB, SCV1NOTEOFFB, "channel_voice1::NoteOff(bytes)", Cv1, Shape::Fixed; midi2::channel_voice1::NoteOff; u8, Bytes, no; 3, [(0,0x000000F0,0x00000080)], false;
    none; { channel set_channel U4 false [(0,0x0000000F)]; note_number set_note_number U7 false [(1,0x0000007F)]; velocity set_velocity U7 false [(2,0x0000007F)] });
msg!(KCv1NoteOn, SCV1NOTEON, "channel_voice1::NoteOn", Cv1, Shape::Fixed; midi2::channel_voice1::NoteOn; u32, Ump, yes; 1, [(0,0xF0F00000,0x20900000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; velocity set_velocity U7 false [(0,0x0000007F)] });
msg!(KCv1NoteOnB, SCV1NOTEONB, "channel_voice1::NoteOn(bytes)", Cv1, Shape::Fixed; midi2::channel_voice1::NoteOn; u8, Bytes, no; 3, [(0,0x000000F0,0x00000090)], false;
    none; { channel set_channel U4 false [(0,0x0000000F)]; note_number set_note_number U7 false [(1,0x0000007F)]; velocity set_velocity U7 false [(2,0x0000007F)] });
msg!(KCv1KeyPressure, SCV1KEYPRESSURE, "channel_voice1::KeyPressure", Cv1, Shape::Fixed; midi2::channel_voice1::KeyPressure; u32, Ump, yes; 1, [(0,0xF0F00000,0x20A00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; pressure set_pressure U7 false [(0,0x0000007F)] });
msg!(KCv1KeyPressureB, SCV1KEYPRESSUREB, "channel_voice1::KeyPressure(bytes)", Cv1, Shape::Fixed; midi2::channel_voice1::KeyPressure; u8, Bytes, no; 3, [(0,0x000000F0,0x000000A0)], false;
    none; { channel set_channel U4 false [(0,0x0000000F)]; note_number set_note_number U7 false [(1,0x0000007F)]; pressure set_pressure U7 false [(2,0x0000007F)] });
msg!(KCv1ControlChange, SCV1CONTROLCHANGE, "channel_voice1::ControlChange", Cv1, Shape::Fixed; midi2::channel_voice1::ControlChange; u32, Ump, yes; 1, [(0,0xF0F00000,0x20B00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; control set_control U7 false [(0,0x00007F00)]; control_data set_control_data U7 false [(0,0x0000007F)] });
msg!(KCv1ControlChangeB, SCV1CONTROLCHANGEB, "channel_voice1::ControlChange(bytes)", Cv1, Shape::Fixed; midi2::channel_voice1::ControlChange; u8, Bytes, no; 3, [(0,0x000000F0,0x000000B0)], false;
    none; { channel set_channel U4 false [(0,0x0000000F)]; control set_control U7 false [(1,0x0000007F)]; control_data set_control_data U7 false [(2,0x0000007F)] });
msg!(KCv1ProgramChange, SCV1PROGRAMCHANGE, "channel_voice1::ProgramChange", Cv1, Shape::Fixed; midi2::channel_voice1::ProgramChange; u32, Ump, yes; 1, [(0,0xF0F00000,0x20C00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; program set_program U7 false [(0,0x00007F00)] });
msg!(KCv1ProgramChangeB, SCV1PROGRAMCHANGEB, "channel_voice1::ProgramChange(bytes)", Cv1, Shape::Fixed; midi2::channel_voice1::ProgramChange; u8, Bytes, no; 2, [(0,0x000000F0,0x000000C0)], false;
    none; { channel set_channel U4 false [(0,0x0000000F)]; program set_program U7 false [(1,0x0000007F)] });
msg!(KCv1ChannelPressure, SCV1CHANNELPRESSURE, "channel_voice1::ChannelPressure", Cv1, Shape::Fixed; midi2::channel_voice1::ChannelPressure; u32, Ump, yes; 1, [(0,0xF0F00000,0x20D00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; pressure set_pressure U7 false [(0,0x00007F00)] });
msg!(KCv1ChannelPressureB, SCV1CHANNELPRESSUREB, "channel_voice1::ChannelPressure(bytes)", Cv1, Shape::Fixed; midi2::channel_voice1::ChannelPressure; u8, Bytes, no; 2, [(0,0x000000F0,0x000000D0)], false;
    none; { channel set_channel U4 false [(0,0x0000000F)]; pressure set_pressure U7 false [(1,0x0000007F)] });
msg!(KCv1PitchBend, SCV1PITCHBEND, "channel_voice1::PitchBend", Cv1, Shape::Fixed; midi2::channel_voice1::PitchBend; u32, Ump, yes; 1, [(0,0xF0F00000,0x20E00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; bend set_bend U14 false [(0,0x0000007F),(0,0x00007F00)] });
msg!(KCv1PitchBendB, SCV1PITCHBENDB, "channel_voice1::PitchBend(bytes)", Cv1, Shape::Fixed; midi2::channel_voice1::PitchBend; u8, Bytes, no; 3, [(0,0x000000F0,0x000000E0)], false;
    none; { channel set_channel U4 false [(0,0x0000000F)]; bend set_bend U14 false [(2,0x0000007F),(1,0x0000007F)] });
msg!(KScTimeCode, SSCTIMECODE, "system_common::TimeCode", Sc, Shape::Fixed; midi2::system_common::TimeCode; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10F10000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; time_code set_time_code U7 false [(0,0x00007F00)] });
msg!(KScTimeCodeB, SSCTIMECODEB, "system_common::TimeCode(bytes)", Sc, Shape::Fixed; midi2::system_common::TimeCode; u8, Bytes, no; 2, [(0,0x000000FF,0x000000F1)], false;
    none; { time_code set_time_code U7 false [(1,0x0000007F)] });
msg!(KScSongPositionPointer, SSCSONGPOSITIONPOINTER, "system_common::SongPositionPointer", Sc, Shape::Fixed; midi2::system_common::SongPositionPointer; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10F20000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; position set_position U14 false [(0,0x0000007F),(0,0x00007F00)] });
msg!(KScSongPositionPointerB, SSCSONGPOSITIONPOINTERB, "system_common::SongPositionPointer(bytes)", Sc, Shape::Fixed; midi2::system_common::SongPositionPointer; u8, Bytes, no; 3, [(0,0x000000FF,0x000000F2)], false;
    none; { position set_position U14 false [(2,0x0000007F),(1,0x0000007F)] });
msg!(KScSongSelect, SSCSONGSELECT, "system_common::SongSelect", Sc, Shape::Fixed; midi2::system_common::SongSelect; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10F30000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; song set_song U7 false [(0,0x00007F00)] });
msg!(KScSongSelectB, SSCSONGSELECTB, "system_common::SongSelect(bytes)", Sc, Shape::Fixed; midi2::system_common::SongSelect; u8, Bytes, no; 2, [(0,0x000000FF,0x000000F3)], false;
    none; { song set_song U7 false [(1,0x0000007F)] });
msg!(KScTuneRequest, SSCTUNEREQUEST, "system_common::TuneRequest", Sc, Shape::Fixed; midi2::system_common::TuneRequest; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10F60000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)] });
msg!(KScTuneRequestB, SSCTUNEREQUESTB, "system_common::TuneRequest(bytes)", Sc, Shape::Fixed; midi2::system_common::TuneRequest; u8, Bytes, no; 1, [(0,0x000000FF,0x000000F6)], false;
    none; {  });
msg!(KScTimingClock, SSCTIMINGCLOCK, "system_common::TimingClock", Sc, Shape::Fixed; midi2::system_common::TimingClock; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10F80000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)] });
msg!(KScTimingClockB, SSCTIMINGCLOCKB, "system_common::TimingClock(bytes)", Sc, Shape::Fixed; midi2::system_common::TimingClock; u8, Bytes, no; 1, [(0,0x000000FF,0x000000F8)], false;
    none; {  });
msg!(KScStart, SSCSTART, "system_common::Start", Sc, Shape::Fixed; midi2::system_common::Start; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10FA0000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)] });
msg!(KScStartB, SSCSTARTB, "system_common::Start(bytes)", Sc, Shape::Fixed; midi2::system_common::Start; u8, Bytes, no; 1, [(0,0x000000FF,0x000000FA)], false;
    none; {  });
msg!(KScContinue, SSCCONTINUE, "system_common::Continue", Sc, Shape::Fixed; midi2::system_common::Continue; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10FB0000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)] });
msg!(KScContinueB, SSCCONTINUEB, "system_common::Continue(bytes)", Sc, Shape::Fixed; midi2::system_common::Continue; u8, Bytes, no; 1, [(0,0x000000FF,0x000000FB)], false;
    none; {  });
msg!(KScStop, SSCSTOP, "system_common::Stop", Sc, Shape::Fixed; midi2::system_common::Stop; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10FC0000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)] });
msg!(KScStopB, SSCSTOPB, "system_common::Stop(bytes)", Sc, Shape::Fixed; midi2::system_common::Stop; u8, Bytes, no; 1, [(0,0x000000FF,0x000000FC)], false;
    none; {  });
msg!(KScActiveSensing, SSCACTIVESENSING, "system_common::ActiveSensing", Sc, Shape::Fixed; midi2::system_common::ActiveSensing; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10FE0000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)] });
msg!(KScActiveSensingB, SSCACTIVESENSINGB, "system_common::ActiveSensing(bytes)", Sc, Shape::Fixed; midi2::system_common::ActiveSensing; u8, Bytes, no; 1, [(0,0x000000FF,0x000000FE)], false;
    none; {  });
msg!(KScReset, SSCRESET, "system_common::Reset", Sc, Shape::Fixed; midi2::system_common::Reset; u32, Ump, yes; 1, [(0,0xF0FF0000,0x10FF0000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)] });
msg!(KScResetB, SSCRESETB, "system_common::Reset(bytes)", Sc, Shape::Fixed; midi2::system_common::Reset; u8, Bytes, no; 1, [(0,0x000000FF,0x000000FF)], false;
    none; {  });
msg!(KCv2RegisteredPerNoteController, SCV2REGISTEREDPERNOTECONTROLLER, "channel_voice2::RegisteredPerNoteController", Cv2, Shape::Fixed; midi2::channel_voice2::RegisteredPerNoteController; u32, Ump, yes; 2, [(0,0xF0F00000,0x40000000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; controller set_controller Ctrl false [(0,0x000000FF),(1,0xFFFFFFFF)] });
msg!(KCv2AssignablePerNoteController, SCV2ASSIGNABLEPERNOTECONTROLLER, "channel_voice2::AssignablePerNoteController", Cv2, Shape::Fixed; midi2::channel_voice2::AssignablePerNoteController; u32, Ump, yes; 2, [(0,0xF0F00000,0x40100000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; index set_index U8 false [(0,0x000000FF)]; controller_data set_controller_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2RegisteredController, SCV2REGISTEREDCONTROLLER, "channel_voice2::RegisteredController", Cv2, Shape::Fixed; midi2::channel_voice2::RegisteredController; u32, Ump, yes; 2, [(0,0xF0F00000,0x40200000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; bank set_bank U7 false [(0,0x00007F00)]; index set_index U7 false [(0,0x0000007F)]; controller_data set_controller_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2AssignableController, SCV2ASSIGNABLECONTROLLER, "channel_voice2::AssignableController", Cv2, Shape::Fixed; midi2::channel_voice2::AssignableController; u32, Ump, yes; 2, [(0,0xF0F00000,0x40300000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; bank set_bank U7 false [(0,0x00007F00)]; index set_index U7 false [(0,0x0000007F)]; controller_data set_controller_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2RelativeRegisteredController, SCV2RELATIVEREGISTEREDCONTROLLER, "channel_voice2::RelativeRegisteredController", Cv2, Shape::Fixed; midi2::channel_voice2::RelativeRegisteredController; u32, Ump, yes; 2, [(0,0xF0F00000,0x40400000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; bank set_bank U7 false [(0,0x00007F00)]; index set_index U7 false [(0,0x0000007F)]; controller_data set_controller_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2RelativeAssignableController, SCV2RELATIVEASSIGNABLECONTROLLER, "channel_voice2::RelativeAssignableController", Cv2, Shape::Fixed; midi2::channel_voice2::RelativeAssignableController; u32, Ump, yes; 2, [(0,0xF0F00000,0x40500000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; bank set_bank U7 false [(0,0x00007F00)]; index set_index U7 false [(0,0x0000007F)]; controller_data set_controller_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2PerNotePitchBend, SCV2PERNOTEPITCHBEND, "channel_voice2::PerNotePitchBend", Cv2, Shape::Fixed; midi2::channel_voice2::PerNotePitchBend; u32, Ump, yes; 2, [(0,0xF0F00000,0x40600000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; pitch_bend_data set_pitch_bend_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2NoteOff, SCV2NOTEOFF, "channel_voice2::NoteOff", Cv2, Shape::Fixed; midi2::channel_voice2::NoteOff; u32, Ump, yes; 2, [(0,0xF0F00000,0x40800000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; velocity set_velocity U16 false [(1,0xFFFF0000)]; attribute set_attribute Attr false [(0,0x000000FF),(1,0x0000FFFF)] });
msg!(KCv2NoteOn, SCV2NOTEON, "channel_voice2::NoteOn", Cv2, Shape::Fixed; midi2::channel_voice2::NoteOn; u32, Ump, yes; 2, [(0,0xF0F00000,0x40900000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; velocity set_velocity U16 false [(1,0xFFFF0000)]; attribute set_attribute Attr false [(0,0x000000FF),(1,0x0000FFFF)] });
msg!(KCv2KeyPressure, SCV2KEYPRESSURE, "channel_voice2::KeyPressure", Cv2, Shape::Fixed; midi2::channel_voice2::KeyPressure; u32, Ump, yes; 2, [(0,0xF0F00000,0x40A00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; key_pressure_data set_key_pressure_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2ControlChange, SCV2CONTROLCHANGE, "channel_voice2::ControlChange", Cv2, Shape::Fixed; midi2::channel_voice2::ControlChange; u32, Ump, yes; 2, [(0,0xF0F00000,0x40B00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; control set_control U7 false [(0,0x00007F00)]; control_change_data set_control_change_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2ProgramChange, SCV2PROGRAMCHANGE, "channel_voice2::ProgramChange", Cv2, Shape::Fixed; midi2::channel_voice2::ProgramChange; u32, Ump, yes; 2, [(0,0xF0F00000,0x40C00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; program set_program U7 false [(1,0x7F000000)]; bank set_bank OptBank false [(0,0x00000001),(1,0x0000007F),(1,0x00007F00)] });
msg!(KCv2ChannelPressure, SCV2CHANNELPRESSURE, "channel_voice2::ChannelPressure", Cv2, Shape::Fixed; midi2::channel_voice2::ChannelPressure; u32, Ump, yes; 2, [(0,0xF0F00000,0x40D00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; channel_pressure_data set_channel_pressure_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2ChannelPitchBend, SCV2CHANNELPITCHBEND, "channel_voice2::ChannelPitchBend", Cv2, Shape::Fixed; midi2::channel_voice2::ChannelPitchBend; u32, Ump, yes; 2, [(0,0xF0F00000,0x40E00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; pitch_bend_data set_pitch_bend_data U32 false [(1,0xFFFFFFFF)] });
msg!(KCv2PerNoteManagement, SCV2PERNOTEMANAGEMENT, "channel_voice2::PerNoteManagement", Cv2, Shape::Fixed; midi2::channel_voice2::PerNoteManagement; u32, Ump, yes; 2, [(0,0xF0F00000,0x40F00000)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; channel set_channel U4 false [(0,0x000F_0000)]; note_number set_note_number U7 false [(0,0x00007F00)]; detach set_detach Bool false [(0,0x00000001)]; reset set_reset Bool false [(0,0x00000002)] });
msg!(KUtNoOp, SUTNOOP, "utility::NoOp", Ut, Shape::Fixed; midi2::utility::NoOp; u32, Ump, yes; 1, [(0,0xF0F00000,0x00000000)], false;
    none; {  });
msg!(KUtClock, SUTCLOCK, "utility::Clock", Ut, Shape::Fixed; midi2::utility::Clock; u32, Ump, yes; 1, [(0,0xF0F00000,0x00100000)], false;
    none; { time_data set_time_data U16 false [(0,0x0000FFFF)] });
msg!(KUtTimestamp, SUTTIMESTAMP, "utility::Timestamp", Ut, Shape::Fixed; midi2::utility::Timestamp; u32, Ump, yes; 1, [(0,0xF0F00000,0x00200000)], false;
    none; { time_data set_time_data U16 false [(0,0x0000FFFF)] });
msg!(KUtDeltaClockstampTpq, SUTDELTACLOCKSTAMPTPQ, "utility::DeltaClockstampTpq", Ut, Shape::Fixed; midi2::utility::DeltaClockstampTpq; u32, Ump, yes; 1, [(0,0xF0F00000,0x00300000)], false;
    none; { time_data set_time_data U16 false [(0,0x0000FFFF)] });
msg!(KUtDeltaClockstamp, SUTDELTACLOCKSTAMP, "utility::DeltaClockstamp", Ut, Shape::Fixed; midi2::utility::DeltaClockstamp; u32, Ump, yes; 1, [(0,0xF0F00000,0x00400000)], false;
    none; { time_data set_time_data U20 false [(0,0x000FFFFF)] });
msg!(KFlexSetTempo, SFLEXSETTEMPO, "flex_data::SetTempo", Flex, Shape::Fixed; midi2::flex_data::SetTempo; u32, Ump, yes; 4, [(0,0xF0C0FFFF,0xD0000000)], true;
    none; { group set_group U4 true [(0,0x0F00_0000)]; number_of_10_nanosecond_units_per_quarter_note set_number_of_10_nanosecond_units_per_quarter_note U32 false [(1,0xFFFFFFFF)] });
msg!(KFlexSetTimeSignature, SFLEXSETTIMESIGNATURE, "flex_data::SetTimeSignature", Flex, Shape::Fixed; midi2::flex_data::SetTimeSignature; u32, Ump, yes; 4, [(0,0xF0C0FFFF,0xD0000001)], true;
    none; { group set_group U4 true [(0,0x0F00_0000)]; numerator set_numerator U8 false [(1,0xFF000000)]; denominator set_denominator U8 false [(1,0x00FF0000)]; number_of_32nd_notes set_number_of_32nd_notes U8 false [(1,0x0000FF00)] });
msg!(KFlexSetMetronome, SFLEXSETMETRONOME, "flex_data::SetMetronome", Flex, Shape::Fixed; midi2::flex_data::SetMetronome; u32, Ump, yes; 4, [(0,0xF0C0FFFF,0xD0000002)], true;
    none; { group set_group U4 true [(0,0x0F00_0000)]; number_of_clocks_per_primary_click set_number_of_clocks_per_primary_click U8 false [(1,0xFF000000)]; bar_accent1 set_bar_accent1 U8 false [(1,0x00FF0000)]; bar_accent2 set_bar_accent2 U8 false [(1,0x0000FF00)]; bar_accent3 set_bar_accent3 U8 false [(1,0x000000FF)]; number_of_subdivision_clicks1 set_number_of_subdivision_clicks1 U8 false [(2,0xFF000000)]; number_of_subdivision_clicks2 set_number_of_subdivision_clicks2 U8 false [(2,0x00FF0000)] });
msg!(KFlexSetKeySignature, SFLEXSETKEYSIGNATURE, "flex_data::SetKeySignature", Flex, Shape::Fixed; midi2::flex_data::SetKeySignature; u32, Ump, yes; 4, [(0,0xF0C0FFFF,0xD0000005)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)]; tonic set_tonic Tonic false [(1,0x0F000000)]; sharps_flats set_sharps_flats KeySf false [(1,0xF0000000)] });
msg!(KFlexSetChordName, SFLEXSETCHORDNAME, "flex_data::SetChordName", Flex, Shape::Fixed; midi2::flex_data::SetChordName; u32, Ump, yes; 4, [(0,0xF0C0FFFF,0xD0000006)], false;
    none; { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)]; tonic_sharps_flats set_tonic_sharps_flats ChordSf false [(1,0xF0000000)]; tonic set_tonic Tonic false [(1,0x0F000000)]; chord_type set_chord_type Chord false [(1,0x00FF0000)]; chord_alteration1 set_chord_alteration1 Alt false [(1,0x0000FF00)]; chord_alteration2 set_chord_alteration2 Alt false [(1,0x000000FF)]; chord_alteration3 set_chord_alteration3 Alt false [(2,0xFF000000)]; chord_alteration4 set_chord_alteration4 Alt false [(2,0x00FF0000)]; bass_sharps_flats set_bass_sharps_flats ChordSf false [(3,0xF0000000)]; bass_note set_bass_note Tonic false [(3,0x0F000000)]; bass_chord_type set_bass_chord_type Chord false [(3,0x00FF0000)]; bass_alteration1 set_bass_alteration1 Alt false [(3,0x0000FF00)]; bass_alteration2 set_bass_alteration2 Alt false [(3,0x000000FF)] });
msg!(KFlexUnknownMetadataText, SFLEXUNKNOWNMETADATATEXT, "flex_data::UnknownMetadataText", Flex, Shape::FlexText; midi2::flex_data::UnknownMetadataText; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000100)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexProjectName, SFLEXPROJECTNAME, "flex_data::ProjectName", Flex, Shape::FlexText; midi2::flex_data::ProjectName; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000101)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexCompositionName, SFLEXCOMPOSITIONNAME, "flex_data::CompositionName", Flex, Shape::FlexText; midi2::flex_data::CompositionName; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000102)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexMidiClipName, SFLEXMIDICLIPNAME, "flex_data::MidiClipName", Flex, Shape::FlexText; midi2::flex_data::MidiClipName; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000103)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexCopyrightNotice, SFLEXCOPYRIGHTNOTICE, "flex_data::CopyrightNotice", Flex, Shape::FlexText; midi2::flex_data::CopyrightNotice; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000104)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexComposerName, SFLEXCOMPOSERNAME, "flex_data::ComposerName", Flex, Shape::FlexText; midi2::flex_data::ComposerName; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000105)], false;
    text(name, name_bytes, set_name, try_set_name); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexLyricistName, SFLEXLYRICISTNAME, "flex_data::LyricistName", Flex, Shape::FlexText; midi2::flex_data::LyricistName; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000106)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexArrangerName, SFLEXARRANGERNAME, "flex_data::ArrangerName", Flex, Shape::FlexText; midi2::flex_data::ArrangerName; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000107)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexPublisherName, SFLEXPUBLISHERNAME, "flex_data::PublisherName", Flex, Shape::FlexText; midi2::flex_data::PublisherName; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000108)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexPrimaryPerformerName, SFLEXPRIMARYPERFORMERNAME, "flex_data::PrimaryPerformerName", Flex, Shape::FlexText; midi2::flex_data::PrimaryPerformerName; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000109)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexAccompanyingPerformerName, SFLEXACCOMPANYINGPERFORMERNAME, "flex_data::AccompanyingPerformerName", Flex, Shape::FlexText; midi2::flex_data::AccompanyingPerformerName; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD000010A)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexRecordingDate, SFLEXRECORDINGDATE, "flex_data::RecordingDate", Flex, Shape::FlexText; midi2::flex_data::RecordingDate; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD000010B)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexRecordingLocation, SFLEXRECORDINGLOCATION, "flex_data::RecordingLocation", Flex, Shape::FlexText; midi2::flex_data::RecordingLocation; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD000010C)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexUnknownPerformanceText, SFLEXUNKNOWNPERFORMANCETEXT, "flex_data::UnknownPerformanceText", Flex, Shape::FlexText; midi2::flex_data::UnknownPerformanceText; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000200)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexLyrics, SFLEXLYRICS, "flex_data::Lyrics", Flex, Shape::FlexText; midi2::flex_data::Lyrics; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000201)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexLyricsLanguage, SFLEXLYRICSLANGUAGE, "flex_data::LyricsLanguage", Flex, Shape::FlexText; midi2::flex_data::LyricsLanguage; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000202)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexRuby, SFLEXRUBY, "flex_data::Ruby", Flex, Shape::FlexText; midi2::flex_data::Ruby; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000203)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KFlexRubyLanguage, SFLEXRUBYLANGUAGE, "flex_data::RubyLanguage", Flex, Shape::FlexText; midi2::flex_data::RubyLanguage; u32, Ump, yes; 4, [(0,0xF000FFFF,0xD0000204)], false;
    text(text, text_bytes, set_text, try_set_text); { group set_group U4 true [(0,0x0F00_0000)]; optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)] });
msg!(KStreamEndpointDiscovery, SSTREAMENDPOINTDISCOVERY, "ump_stream::EndpointDiscovery", Stream, Shape::Fixed; midi2::ump_stream::EndpointDiscovery; u32, Ump, yes; 4, [(0,0xFFFF0000,0xF0000000)], false;
    none; { ump_version_major set_ump_version_major U8 false [(0,0x0000FF00)]; ump_version_minor set_ump_version_minor U8 false [(0,0x000000FF)]; request_endpoint_info set_request_endpoint_info Bool false [(1,0x00000001)]; request_device_identity set_request_device_identity Bool false [(1,0x00000002)]; request_endpoint_name set_request_endpoint_name Bool false [(1,0x00000004)]; request_product_instance_id set_request_product_instance_id Bool false [(1,0x00000008)]; request_stream_configuration set_request_stream_configuration Bool false [(1,0x00000010)] });
msg!(KStreamEndpointInfo, SSTREAMENDPOINTINFO, "ump_stream::EndpointInfo", Stream, Shape::Fixed; midi2::ump_stream::EndpointInfo; u32, Ump, yes; 4, [(0,0xFFFF0000,0xF0010000)], false;
    none; { ump_version_major set_ump_version_major U8 false [(0,0x0000FF00)]; ump_version_minor set_ump_version_minor U8 false [(0,0x000000FF)]; static_function_blocks set_static_function_blocks Bool false [(1,0x80000000)]; number_of_function_blocks set_number_of_function_blocks U7 false [(1,0x7F000000)]; supports_midi2_protocol set_supports_midi2_protocol Bool false [(1,0x00000200)]; supports_midi1_protocol set_supports_midi1_protocol Bool false [(1,0x00000100)]; supports_receiving_jr_timestamps set_supports_receiving_jr_timestamps Bool false [(1,0x00000002)]; supports_sending_jr_timestamps set_supports_sending_jr_timestamps Bool false [(1,0x00000001)] });
msg!(KStreamDeviceIdentity, SSTREAMDEVICEIDENTITY, "ump_stream::DeviceIdentity", Stream, Shape::Fixed; midi2::ump_stream::DeviceIdentity; u32, Ump, yes; 4, [(0,0xFFFF0000,0xF0020000)], false;
    none; { device_manufacturer set_device_manufacturer U7x3 false [(1,0x007F0000),(1,0x00007F00),(1,0x0000007F)]; device_family set_device_family U14 false [(2,0x007F0000),(2,0x7F000000)]; device_family_model_number set_device_family_model_number U14 false [(2,0x0000007F),(2,0x00007F00)]; software_version set_software_version U7x4 false [(3,0x7F000000),(3,0x007F0000),(3,0x00007F00),(3,0x0000007F)] });
msg!(KStreamEndpointName, SSTREAMENDPOINTNAME, "ump_stream::EndpointName", Stream, Shape::StreamText(0); midi2::ump_stream::EndpointName; u32, Ump, yes; 4, [(0,0xF3FF0000,0xF0030000)], false;
    text(name, name_bytes, set_name, try_set_name); {  });
msg!(KStreamProductInstanceId, SSTREAMPRODUCTINSTANCEID, "ump_stream::ProductInstanceId", Stream, Shape::StreamText(0); midi2::ump_stream::ProductInstanceId; u32, Ump, yes; 4, [(0,0xF3FF0000,0xF0040000)], false;
    text(id, id_bytes, set_id, try_set_id); {  });
msg!(KStreamStreamConfigurationRequest, SSTREAMSTREAMCONFIGURATIONREQUEST, "ump_stream::StreamConfigurationRequest", Stream, Shape::Fixed; midi2::ump_stream::StreamConfigurationRequest; u32, Ump, yes; 4, [(0,0xFFFF0000,0xF0050000)], false;
    none; { protocol set_protocol U8 false [(0,0x0000FF00)]; receive_jr_timestamps set_receive_jr_timestamps Bool false [(0,0x00000002)]; send_jr_timestamps set_send_jr_timestamps Bool false [(0,0x00000001)] });
msg!(KStreamStreamConfigurationNotification, SSTREAMSTREAMCONFIGURATIONNOTIFICATION, "ump_stream::StreamConfigurationNotification", Stream, Shape::Fixed; midi2::ump_stream::StreamConfigurationNotification; u32, Ump, yes; 4, [(0,0xFFFF0000,0xF0060000)], false;
    none; { protocol set_protocol U8 false [(0,0x0000FF00)]; receive_jr_timestamps set_receive_jr_timestamps Bool false [(0,0x00000002)]; send_jr_timestamps set_send_jr_timestamps Bool false [(0,0x00000001)] });
msg!(KStreamFunctionBlockDiscovery, SSTREAMFUNCTIONBLOCKDISCOVERY, "ump_stream::FunctionBlockDiscovery", Stream, Shape::Fixed; midi2::ump_stream::FunctionBlockDiscovery; u32, Ump, yes; 1, [(0,0xFFFF0000,0xF0100000)], false;
    none; { function_block_number set_function_block_number U8 false [(0,0x0000FF00)]; requesting_function_block_info set_requesting_function_block_info Bool false [(0,0x00000002)]; requesting_function_block_name set_requesting_function_block_name Bool false [(0,0x00000001)] });
msg!(KStreamFunctionBlockInfo, SSTREAMFUNCTIONBLOCKINFO, "ump_stream::FunctionBlockInfo", Stream, Shape::Fixed; midi2::ump_stream::FunctionBlockInfo; u32, Ump, yes; 4, [(0,0xFFFF0000,0xF0110000)], false;
    none; { active set_active Bool false [(0,0x00008000)]; function_block_number set_function_block_number U7 false [(0,0x00007F00)]; first_group set_first_group U4 false [(1,0x0F000000)]; number_of_groups_spanned set_number_of_groups_spanned U8 false [(1,0x00FF0000)]; midi_ci_version set_midi_ci_version U8 false [(1,0x0000FF00)]; max_number_of_midi_ci_streams set_max_number_of_midi_ci_streams U8 false [(1,0x000000FF)]; ui_hint set_ui_hint Hint false [(0,0x00000030)]; midi1_port set_midi1_port Port false [(0,0x0000000C)]; direction set_direction Dir false [(0,0x00000003)] });
msg!(KStreamFunctionBlockName, SSTREAMFUNCTIONBLOCKNAME, "ump_stream::FunctionBlockName", Stream, Shape::StreamText(1); midi2::ump_stream::FunctionBlockName; u32, Ump, yes; 4, [(0,0xF3FF0000,0xF0120000)], false;
    text(name, name_bytes, set_name, try_set_name); { function_block set_function_block U8 true [(0,0x0000FF00)] });
msg!(KStreamStartOfClip, SSTREAMSTARTOFCLIP, "ump_stream::StartOfClip", Stream, Shape::Fixed; midi2::ump_stream::StartOfClip; u32, Ump, yes; 4, [(0,0xFFFF0000,0xF0200000)], false;
    none; {  });
msg!(KStreamEndOfClip, SSTREAMENDOFCLIP, "ump_stream::EndOfClip", Stream, Shape::Fixed; midi2::ump_stream::EndOfClip; u32, Ump, yes; 4, [(0,0xFFFF0000,0xF0210000)], false;
    none; {  });
msg!(KS7Sysex7, SS7SYSEX7, "sysex7::Sysex7", S7, Shape::Sysex7; midi2::sysex7::Sysex7; u32, Ump, yes; 2, [(0,0xF0000000,0x30000000)], false;
    sysex(u7of); { group set_group U4 true [(0,0x0F00_0000)] });
msg!(KS7Sysex7B, SS7SYSEX7B, "sysex7::Sysex7(bytes)", S7, Shape::Sysex7; midi2::sysex7::Sysex7; u8, Bytes, no; 2, [(0,0x000000FF,0x000000F0)], false;
    sysex(u7of); {  });
msg!(KS8Sysex8, SS8SYSEX8, "sysex8::Sysex8", S8, Shape::Sysex8; midi2::sysex8::Sysex8; u32, Ump, yes; 4, [(0,0xF0000000,0x50000000)], false;
    sysex(same); { group set_group U4 true [(0,0x0F00_0000)]; stream_id set_stream_id U8 true [(0,0x0000FF00)] });
