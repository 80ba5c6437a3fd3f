#!/usr/bin/env python3
"""Writes harness/src/tables.rs: one `msg!` per message type, from the MIDI 2.0 wire tables below."""
import os
out=[]
U=[];Bt=[]
G="group set_group U4 true [(0,0x0F00_0000)]"
C="channel set_channel U4 false [(0,0x000F_0000)]"
def f(name,codec,*pieces,shared=False):
    ps=",".join(f"({u},0x{m:08X})" for u,m in pieces)
    return f"{name} set_{name} {codec} {'true' if shared else 'false'} [{ps}]"
def emit(mod,fam,name,rep,minv,consts,fields,shape="Shape::Fixed",content="none",addr=False):
    K=f"{fam}{name}{'B' if rep=='b' else ''}"
    unit,bound,pk=("u32","Ump","yes") if rep=="u" else ("u8","Bytes","no")
    cs=",".join(f"({u},0x{m:08X},0x{v:08X})" for u,m,v in consts)
    disp=f"{mod}::{name}{'(bytes)' if rep=='b' else ''}"
    out.append(f'msg!(K{K}, S{K.upper()}, "{disp}", {fam}, {shape}; midi2::{mod}::{name}; {unit}, {bound}, {pk}; {minv}, [{cs}], {"true" if addr else "false"};\n    {content}; {{ {"; ".join(fields)} }});')
    (U if rep=="u" else Bt).append((f"K{K}",mod+"::"+name))

# channel voice 1
CB=f("channel","U4",(0,0x0F))
def cv1(name,st,size,fields):
    emit("channel_voice1","Cv1",name,"u",1,[(0,0xF0F00000,0x20000000|st<<20)],[G,C]+[f(n,c,*[(0,[0x7F00,0x7F][o-1]) for o in os_]) for n,c,os_ in fields])
    emit("channel_voice1","Cv1",name,"b",size,[(0,0xF0,st<<4)],[CB]+[f(n,c,*[(o,0x7F) for o in os_]) for n,c,os_ in fields])
cv1("NoteOff",8,3,[("note_number","U7",[1]),("velocity","U7",[2])])
cv1("NoteOn",9,3,[("note_number","U7",[1]),("velocity","U7",[2])])
cv1("KeyPressure",10,3,[("note_number","U7",[1]),("pressure","U7",[2])])
cv1("ControlChange",11,3,[("control","U7",[1]),("control_data","U7",[2])])
cv1("ProgramChange",12,2,[("program","U7",[1])])
cv1("ChannelPressure",13,2,[("pressure","U7",[1])])
cv1("PitchBend",14,3,[("bend","U14",[2,1])])
# system common
def sc(name,st,size,fields):
    emit("system_common","Sc",name,"u",1,[(0,0xF0FF0000,0x10000000|st<<16)],[G]+[f(n,c,*[(0,[0x7F00,0x7F][o-1]) for o in os_]) for n,c,os_ in fields])
    emit("system_common","Sc",name,"b",size,[(0,0xFF,st)],[f(n,c,*[(o,0x7F) for o in os_]) for n,c,os_ in fields])
sc("TimeCode",0xF1,2,[("time_code","U7",[1])])
sc("SongPositionPointer",0xF2,3,[("position","U14",[2,1])])
sc("SongSelect",0xF3,2,[("song","U7",[1])])
for n,s in [("TuneRequest",0xF6),("TimingClock",0xF8),("Start",0xFA),("Continue",0xFB),("Stop",0xFC),("ActiveSensing",0xFE),("Reset",0xFF)]:
    sc(n,s,1,[])
# channel voice 2
def cv2(name,st,fields):
    emit("channel_voice2","Cv2",name,"u",2,[(0,0xF0F00000,0x40000000|st<<20)],[G,C]+fields)
NN=f("note_number","U7",(0,0x7F00)); BK=f("bank","U7",(0,0x7F00)); IX=f("index","U7",(0,0x7F))
def w1(n): return f(n,"U32",(1,0xFFFFFFFF))
cv2("RegisteredPerNoteController",0,[NN,f("controller","Ctrl",(0,0xFF),(1,0xFFFFFFFF))])
cv2("AssignablePerNoteController",1,[NN,f("index","U8",(0,0xFF)),w1("controller_data")])
for n,s in [("RegisteredController",2),("AssignableController",3),("RelativeRegisteredController",4),("RelativeAssignableController",5)]:
    cv2(n,s,[BK,IX,w1("controller_data")])
cv2("PerNotePitchBend",6,[NN,w1("pitch_bend_data")])
for n,s in [("NoteOff",8),("NoteOn",9)]:
    cv2(n,s,[NN,f("velocity","U16",(1,0xFFFF0000)),f("attribute","Attr",(0,0xFF),(1,0xFFFF))])
cv2("KeyPressure",10,[NN,w1("key_pressure_data")])
cv2("ControlChange",11,[f("control","U7",(0,0x7F00)),w1("control_change_data")])
cv2("ProgramChange",12,[f("program","U7",(1,0x7F000000)),f("bank","OptBank",(0,1),(1,0x7F),(1,0x7F00))])
cv2("ChannelPressure",13,[w1("channel_pressure_data")])
cv2("ChannelPitchBend",14,[w1("pitch_bend_data")])
cv2("PerNoteManagement",15,[NN,f("detach","Bool",(0,1)),f("reset","Bool",(0,2))])
# utility
def ut(name,st,fields):
    emit("utility","Ut",name,"u",1,[(0,0xF0F00000,st<<20)],fields)
ut("NoOp",0,[]); ut("Clock",1,[f("time_data","U16",(0,0xFFFF))]); ut("Timestamp",2,[f("time_data","U16",(0,0xFFFF))])
ut("DeltaClockstampTpq",3,[f("time_data","U16",(0,0xFFFF))]); ut("DeltaClockstamp",4,[f("time_data","U20",(0,0xFFFFF))])
# flex data
OC="optional_channel set_optional_channel OptChan true [(0,0x0030_0000),(0,0x000F_0000)]"
def fx(name,bank,st,fields,addr=False):
    emit("flex_data","Flex",name,"u",4,[(0,0xF0C0FFFF,0xD0000000|bank<<8|st)],[G]+fields,addr=addr)
def m8(n,u,o): return f(n,"U8",(u,0xFF000000>>(8*o)))
fx("SetTempo",0,0,[w1("number_of_10_nanosecond_units_per_quarter_note")],True)
fx("SetTimeSignature",0,1,[m8("numerator",1,0),m8("denominator",1,1),m8("number_of_32nd_notes",1,2)],True)
fx("SetMetronome",0,2,[m8("number_of_clocks_per_primary_click",1,0),m8("bar_accent1",1,1),m8("bar_accent2",1,2),m8("bar_accent3",1,3),m8("number_of_subdivision_clicks1",2,0),m8("number_of_subdivision_clicks2",2,1)],True)
fx("SetKeySignature",0,5,[OC,f("tonic","Tonic",(1,0x0F000000)),f("sharps_flats","KeySf",(1,0xF0000000))])
fx("SetChordName",0,6,[OC,f("tonic_sharps_flats","ChordSf",(1,0xF0000000)),f("tonic","Tonic",(1,0x0F000000)),f("chord_type","Chord",(1,0x00FF0000)),
  f("chord_alteration1","Alt",(1,0xFF00)),f("chord_alteration2","Alt",(1,0xFF)),f("chord_alteration3","Alt",(2,0xFF000000)),f("chord_alteration4","Alt",(2,0x00FF0000)),
  f("bass_sharps_flats","ChordSf",(3,0xF0000000)),f("bass_note","Tonic",(3,0x0F000000)),f("bass_chord_type","Chord",(3,0x00FF0000)),f("bass_alteration1","Alt",(3,0xFF00)),f("bass_alteration2","Alt",(3,0xFF))])
def ftext(name,bank,st,tok="text"):
    emit("flex_data","Flex",name,"u",4,[(0,0xF000FFFF,0xD0000000|bank<<8|st)],[G,OC],"Shape::FlexText",f"text({tok}, {tok}_bytes, set_{tok}, try_set_{tok})")
for i,n in enumerate(["UnknownMetadataText","ProjectName","CompositionName","MidiClipName","CopyrightNotice","ComposerName","LyricistName","ArrangerName","PublisherName","PrimaryPerformerName","AccompanyingPerformerName","RecordingDate","RecordingLocation"]):
    ftext(n,1,i,"name" if n=="ComposerName" else "text")
for i,n in enumerate(["UnknownPerformanceText","Lyrics","LyricsLanguage","Ruby","RubyLanguage"]):
    ftext(n,2,i)
# stream
def st(name,status,fields,minv=4,shape="Shape::Fixed",content="none",fmt=True):
    mask=0xFFFF0000 if shape=="Shape::Fixed" else 0xF3FF0000
    emit("ump_stream","Stream",name,"u",minv,[(0,mask,0xF0000000|status<<16)],fields,shape,content)
V=[f("ump_version_major","U8",(0,0xFF00)),f("ump_version_minor","U8",(0,0xFF))]
def b(n,u,m): return f(n,"Bool",(u,m))
st("EndpointDiscovery",0,V+[b("request_endpoint_info",1,1),b("request_device_identity",1,2),b("request_endpoint_name",1,4),b("request_product_instance_id",1,8),b("request_stream_configuration",1,16)])
st("EndpointInfo",1,V+[b("static_function_blocks",1,1<<31),f("number_of_function_blocks","U7",(1,0x7F000000)),b("supports_midi2_protocol",1,0x200),b("supports_midi1_protocol",1,0x100),b("supports_receiving_jr_timestamps",1,2),b("supports_sending_jr_timestamps",1,1)])
st("DeviceIdentity",2,[f("device_manufacturer","U7x3",(1,0x7F0000),(1,0x7F00),(1,0x7F)),f("device_family","U14",(2,0x7F0000),(2,0x7F000000)),f("device_family_model_number","U14",(2,0x7F),(2,0x7F00)),f("software_version","U7x4",(3,0x7F000000),(3,0x7F0000),(3,0x7F00),(3,0x7F))])
st("EndpointName",3,[],4,"Shape::StreamText(0)","text(name, name_bytes, set_name, try_set_name)")
st("ProductInstanceId",4,[],4,"Shape::StreamText(0)","text(id, id_bytes, set_id, try_set_id)")
for n,s in [("StreamConfigurationRequest",5),("StreamConfigurationNotification",6)]:
    st(n,s,[f("protocol","U8",(0,0xFF00)),b("receive_jr_timestamps",0,2),b("send_jr_timestamps",0,1)])
st("FunctionBlockDiscovery",0x10,[f("function_block_number","U8",(0,0xFF00)),b("requesting_function_block_info",0,2),b("requesting_function_block_name",0,1)],1)
st("FunctionBlockInfo",0x11,[b("active",0,0x8000),f("function_block_number","U7",(0,0x7F00)),m8("first_group",1,0).replace("U8","U4").replace("0xFF000000","0x0F000000"),m8("number_of_groups_spanned",1,1),m8("midi_ci_version",1,2),m8("max_number_of_midi_ci_streams",1,3),f("ui_hint","Hint",(0,0x30)),f("midi1_port","Port",(0,0xC)),f("direction","Dir",(0,3))])
st("FunctionBlockName",0x12,[f("function_block","U8",(0,0xFF00),shared=True)],4,"Shape::StreamText(1)","text(name, name_bytes, set_name, try_set_name)")
st("StartOfClip",0x20,[]); st("EndOfClip",0x21,[])
# sysex
emit("sysex7","S7","Sysex7","u",2,[(0,0xF0000000,0x30000000)],[G],"Shape::Sysex7","sysex(u7of)")
emit("sysex7","S7","Sysex7","b",2,[(0,0xFF,0xF0)],[],"Shape::Sysex7","sysex(u7of)")
emit("sysex8","S8","Sysex8","u",4,[(0,0xF0000000,0x50000000)],[G,f("stream_id","U8",(0,0xFF00),shared=True)],"Shape::Sysex8","sysex(same)")
lists=["pub static UKITS: &[&dyn Kit<u32>] = &["+", ".join("&"+k for k,_ in U)+"];",
"pub static BKITS: &[&dyn Kit<u8>] = &["+", ".join("&"+k for k,_ in Bt)+"];"]
here=os.path.join(os.path.dirname(__file__),"..")
open(os.path.join(here,"harness","src","kit_lists.rs"),"w").write("// generated by tools/gen_tables.py\n"+"\n".join(lists)+"\n")
feat=lambda n: n.split("::")[0].replace("_","-").replace("channel-voice","channel-voice")
pl=[]
for nm,ty,ks in (("UPROBES","u32",U),("BPROBES","u8",Bt)):
    pl.append("pub static %s: &[&dyn Probe<%s>] = &[\n"%(nm,ty)+"".join('    #[cfg(feature = "%s")]\n    &%s,\n'%(feat(n),k) for k,n in ks)+"];")
os.makedirs(os.path.join(here,"subsets","src"),exist_ok=True)
open(os.path.join(here,"subsets","src","probe_lists.rs"),"w").write("// generated by tools/gen_tables.py\n"+"\n".join(pl)+"\n")
open(os.path.join(os.path.dirname(__file__),"..","harness","src","tables.rs"),"w").write("// generated by tools/gen_tables.py from the MIDI 2.0 wire tables\n"+"\n".join(out)+"\n")
# aggregate membership: family enum, module, unit type, flags (grouped, channeled, flex bank), members
FAMS=[("ChannelVoice1","channel_voice1","u32","U","yes","yes","no"),("ChannelVoice1","channel_voice1","u8","B","no","yes","no"),
 ("ChannelVoice2","channel_voice2","u32","U","yes","yes","no"),("SystemCommon","system_common","u32","U","yes","no","no"),("SystemCommon","system_common","u8","B","no","no","no"),
 ("FlexData","flex_data","u32","U","yes","no","yes"),("UmpStream","ump_stream","u32","U","no","no","no"),("Utility","utility","u32","U","no","no","no")]
ag=[]
for en,mod,ty,side,g,c,x in FAMS:
    mem=[(k,n) for k,n in (U if side=="U" else Bt) if n.split("::")[0]==mod]
    ag.append("family!(%s %s %s %s %s %s %s; %s);"%(en,mod,ty,("UmpMessage" if side=="U" else "BytesMessage"),g,c,x,", ".join("%s %s"%(n.split("::")[1].replace("(bytes)",""),k) for k,n in mem)))
ag.append("pub static UAGGS: &[&dyn Agg<u32>] = &["+", ".join("&"+k for k,_ in U)+"];")
ag.append("pub static BAGGS: &[&dyn Agg<u8>] = &["+", ".join("&"+k for k,_ in Bt)+"];")
open(os.path.join(os.path.dirname(__file__),"..","harness","src","agg_tables.rs"),"w").write("// generated by tools/gen_tables.py\n"+"\n".join(ag)+"\n")
print(len(U),len(Bt))
