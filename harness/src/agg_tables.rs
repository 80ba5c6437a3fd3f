// generated by tools/gen_tables.py
family!(ChannelVoice1 channel_voice1 u32 UmpMessage yes yes no; NoteOff KCv1NoteOff, NoteOn KCv1NoteOn, KeyPressure KCv1KeyPressure, ControlChange KCv1ControlChange, ProgramChange KCv1ProgramChange, ChannelPressure KCv1ChannelPressure, PitchBend KCv1PitchBend);
family!(ChannelVoice1 channel_voice1 u8 BytesMessage no yes no; NoteOff KCv1NoteOffB, NoteOn KCv1NoteOnB, KeyPressure KCv1KeyPressureB, ControlChange KCv1ControlChangeB, ProgramChange KCv1ProgramChangeB, ChannelPressure KCv1ChannelPressureB, PitchBend KCv1PitchBendB);
family!(ChannelVoice2 channel_voice2 u32 UmpMessage yes yes no; RegisteredPerNoteController KCv2RegisteredPerNoteController, AssignablePerNoteController KCv2AssignablePerNoteController, RegisteredController KCv2RegisteredController, AssignableController KCv2AssignableController, RelativeRegisteredController KCv2RelativeRegisteredController, RelativeAssignableController KCv2RelativeAssignableController, PerNotePitchBend KCv2PerNotePitchBend, NoteOff KCv2NoteOff, NoteOn KCv2NoteOn, KeyPressure KCv2KeyPressure, ControlChange KCv2ControlChange, ProgramChange KCv2ProgramChange, ChannelPressure KCv2ChannelPressure, ChannelPitchBend KCv2ChannelPitchBend, PerNoteManagement KCv2PerNoteManagement);
family!(SystemCommon system_common u32 UmpMessage yes no no; TimeCode KScTimeCode, SongPositionPointer KScSongPositionPointer, SongSelect KScSongSelect, TuneRequest KScTuneRequest, TimingClock KScTimingClock, Start KScStart, Continue KScContinue, Stop KScStop, ActiveSensing KScActiveSensing, Reset KScReset);
family!(SystemCommon system_common u8 BytesMessage no no no; TimeCode KScTimeCodeB, SongPositionPointer KScSongPositionPointerB, SongSelect KScSongSelectB, TuneRequest KScTuneRequestB, TimingClock KScTimingClockB, Start KScStartB, Continue KScContinueB, Stop KScStopB, ActiveSensing KScActiveSensingB, Reset KScResetB);
family!(FlexData flex_data u32 UmpMessage yes no yes; SetTempo KFlexSetTempo, SetTimeSignature KFlexSetTimeSignature, SetMetronome KFlexSetMetronome, SetKeySignature KFlexSetKeySignature, SetChordName KFlexSetChordName, UnknownMetadataText KFlexUnknownMetadataText, ProjectName KFlexProjectName, CompositionName KFlexCompositionName, MidiClipName KFlexMidiClipName, CopyrightNotice KFlexCopyrightNotice, ComposerName KFlexComposerName, LyricistName KFlexLyricistName, ArrangerName KFlexArrangerName, PublisherName KFlexPublisherName, PrimaryPerformerName KFlexPrimaryPerformerName, AccompanyingPerformerName KFlexAccompanyingPerformerName, RecordingDate KFlexRecordingDate, RecordingLocation KFlexRecordingLocation, UnknownPerformanceText KFlexUnknownPerformanceText, Lyrics KFlexLyrics, LyricsLanguage KFlexLyricsLanguage, Ruby KFlexRuby, RubyLanguage KFlexRubyLanguage);
family!(UmpStream ump_stream u32 UmpMessage no no no; EndpointDiscovery KStreamEndpointDiscovery, EndpointInfo KStreamEndpointInfo, DeviceIdentity KStreamDeviceIdentity, EndpointName KStreamEndpointName, ProductInstanceId KStreamProductInstanceId, StreamConfigurationRequest KStreamStreamConfigurationRequest, StreamConfigurationNotification KStreamStreamConfigurationNotification, FunctionBlockDiscovery KStreamFunctionBlockDiscovery, FunctionBlockInfo KStreamFunctionBlockInfo, FunctionBlockName KStreamFunctionBlockName, StartOfClip KStreamStartOfClip, EndOfClip KStreamEndOfClip);
family!(Utility utility u32 UmpMessage no no no; NoOp KUtNoOp, Clock KUtClock, Timestamp KUtTimestamp, DeltaClockstampTpq KUtDeltaClockstampTpq, DeltaClockstamp KUtDeltaClockstamp);
pub static UAGGS: &[&dyn Agg<u32>] = &[&KCv1NoteOff, &KCv1NoteOn, &KCv1KeyPressure, &KCv1ControlChange, &KCv1ProgramChange, &KCv1ChannelPressure, &KCv1PitchBend, &KScTimeCode, &KScSongPositionPointer, &KScSongSelect, &KScTuneRequest, &KScTimingClock, &KScStart, &KScContinue, &KScStop, &KScActiveSensing, &KScReset, &KCv2RegisteredPerNoteController, &KCv2AssignablePerNoteController, &KCv2RegisteredController, &KCv2AssignableController, &KCv2RelativeRegisteredController, &KCv2RelativeAssignableController, &KCv2PerNotePitchBend, &KCv2NoteOff, &KCv2NoteOn, &KCv2KeyPressure, &KCv2ControlChange, &KCv2ProgramChange, &KCv2ChannelPressure, &KCv2ChannelPitchBend, &KCv2PerNoteManagement, &KUtNoOp, &KUtClock, &KUtTimestamp, &KUtDeltaClockstampTpq, &KUtDeltaClockstamp, &KFlexSetTempo, &KFlexSetTimeSignature, &KFlexSetMetronome, &KFlexSetKeySignature, &KFlexSetChordName, &KFlexUnknownMetadataText, &KFlexProjectName, &KFlexCompositionName, &KFlexMidiClipName, &KFlexCopyrightNotice, &KFlexComposerName, &KFlexLyricistName, &KFlexArrangerName, &KFlexPublisherName, &KFlexPrimaryPerformerName, &KFlexAccompanyingPerformerName, &KFlexRecordingDate, &KFlexRecordingLocation, &KFlexUnknownPerformanceText, &KFlexLyrics, &KFlexLyricsLanguage, &KFlexRuby, &KFlexRubyLanguage, &KStreamEndpointDiscovery, &KStreamEndpointInfo, &KStreamDeviceIdentity, &KStreamEndpointName, &KStreamProductInstanceId, &KStreamStreamConfigurationRequest, &KStreamStreamConfigurationNotification, &KStreamFunctionBlockDiscovery, &KStreamFunctionBlockInfo, &KStreamFunctionBlockName, &KStreamStartOfClip, &KStreamEndOfClip, &KS7Sysex7, &KS8Sysex8];
pub static BAGGS: &[&dyn Agg<u8>] = &[&KCv1NoteOffB, &KCv1NoteOnB, &KCv1KeyPressureB, &KCv1ControlChangeB, &KCv1ProgramChangeB, &KCv1ChannelPressureB, &KCv1PitchBendB, &KScTimeCodeB, &KScSongPositionPointerB, &KScSongSelectB, &KScTuneRequestB, &KScTimingClockB, &KScStartB, &KScContinueB, &KScStopB, &KScActiveSensingB, &KScResetB, &KS7Sysex7B];
