#!/usr/bin/env python3
"""Generates the libsbp stand-in (headers + codec) from a compact field spec.

SBP payloads are packed little-endian structures in field order; trailing
variable-length arrays fill the rest of the payload.  Run by hand; the output
is committed.  Output: include/libsbp/{types_v4.h,types_legacy.h}, src/sbp_gen.c,
include/libsbp/sbp_dump.h
"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
INC = os.path.join(HERE, "include", "libsbp")
PRIM = {'u8':1,'s8':1,'u16':2,'s16':2,'u32':4,'s32':4,'u64':8,'s64':8,'float':4,'double':8,'char':1}
CPRIM = dict(u8='uint8_t',s8='int8_t',u16='uint16_t',s16='int16_t',u32='uint32_t',s32='int32_t',
             u64='uint64_t',s64='int64_t',float='float',double='double',char='char')

# name -> (v4 typename, legacy typename, fields)
TYPES = {}
ORDER = []
def T(name, v4, legacy, fields):
    TYPES[name] = (v4, legacy, [tuple(f.split()) for f in fields.split(';') if f.strip()])
    ORDER.append(name)
T('gnss_signal','sbp_v4_gnss_signal_t','sbp_gnss_signal_t','u8 sat;u8 code')
T('gps_time_sec','sbp_gps_time_sec_t','gps_time_sec_t','u32 tow;u16 wn')
T('gps_time','sbp_v4_gps_time_t','sbp_gps_time_t','u32 tow;s32 ns_residual;u16 wn')
T('carrier_phase','sbp_carrier_phase_t','carrier_phase_t','s32 i;u8 f')
T('doppler','sbp_doppler_t','doppler_t','s16 i;u8 f')
T('observation_header','sbp_observation_header_t','observation_header_t','gps_time t;u8 n_obs')
T('packed_obs_content','sbp_packed_obs_content_t','packed_obs_content_t',
  'u32 P;carrier_phase L;doppler D;u8 cn0;u8 lock;u8 flags;gnss_signal sid')
T('ephemeris_common_content','sbp_ephemeris_common_content_t','ephemeris_common_content_t',
  'gnss_signal sid;gps_time_sec toe;float ura;u32 fit_interval;u8 valid;u8 health_bits')
T('code_biases_content','sbp_code_biases_content_t','code_biases_content_t','u8 code;s16 value')
T('phase_biases_content','sbp_phase_biases_content_t','phase_biases_content_t',
  'u8 code;u8 integer_indicator;u8 widelane_integer_indicator;u8 discontinuity_counter;s32 bias')
T('measurement_state','sbp_measurement_state_t','measurement_state_t','gnss_signal mesid;u8 cn0')
T('sv_az_el','sbp_sv_az_el_t','sv_az_el_t','gnss_signal sid;u8 az;s8 el')
T('solution_input_type','sbp_solution_input_type_t','solution_input_type_t','u8 sensor_type;u8 flags')

MSGS = []
# fields: "type name" | "type name N" fixed array | "type name *MAX" trailing array
def M(name, mid, fields, cap=None):
    MSGS.append((name, mid, [tuple(f.split()) for f in fields.split(';') if f.strip()], cap or name.upper()))
KEPL='double dn;double m0;double ecc;double sqrta;double omega0;double omegadot;double w;double inc;double inc_dot;'
M('obs',0x4A,'observation_header header;packed_obs_content obs *14')
M('base_pos_ecef',0x48,'double x;double y;double z')
EG='ephemeris_common_content common;float tgd;float c_rs;float c_rc;float c_uc;float c_us;float c_ic;float c_is;'+KEPL+'float af0;float af1;float af2;gps_time_sec toc;u8 iode;u16 iodc'
M('ephemeris_gps',0x8A,EG)
M('ephemeris_qzss',0x8E,EG)
M('ephemeris_bds',0x89,'ephemeris_common_content common;float tgd1;float tgd2;float c_rs;float c_rc;float c_uc;float c_us;float c_ic;float c_is;'+KEPL+'double af0;float af1;float af2;gps_time_sec toc;u8 iode;u16 iodc')
M('ephemeris_gal',0x8D,'ephemeris_common_content common;float bgd_e1e5a;float bgd_e1e5b;float c_rs;float c_rc;float c_uc;float c_us;float c_ic;float c_is;'+KEPL+'double af0;double af1;float af2;gps_time_sec toc;u16 iode;u16 iodc;u8 source')
M('ephemeris_glo',0x8B,'ephemeris_common_content common;float gamma;float tau;float d_tau;double pos 3;double vel 3;float acc 3;u8 fcn;u8 iod')
M('glo_biases',0x75,'u8 mask;s16 l1ca_bias;s16 l1p_bias;s16 l2ca_bias;s16 l2p_bias')
M('sv_az_el',0x97,'sv_az_el azel *63')
M('measurement_state',0x61,'measurement_state states *85')
M('log',0x401,'u8 level;string text *254')
M('fwd',0x402,'u8 source;u8 protocol;u8 fwd_payload *253')
M('gps_time',0x102,'u16 wn;u32 tow;s32 ns_residual;u8 flags')
M('gps_time_gnss',0x104,'u16 wn;u32 tow;s32 ns_residual;u8 flags')
U='u8 flags;u32 tow;u16 year;u8 month;u8 day;u8 hours;u8 minutes;u8 seconds;u32 ns'
M('utc_time',0x103,U)
M('utc_time_gnss',0x105,U)
M('dops',0x208,'u32 tow;u16 gdop;u16 pdop;u16 tdop;u16 hdop;u16 vdop;u8 flags')
P='u32 tow;double lat;double lon;double height;u16 h_accuracy;u16 v_accuracy;u8 n_sats;u8 flags'
M('pos_llh',0x20A,P)
M('pos_llh_gnss',0x22A,P)
PC='u32 tow;double lat;double lon;double height;float cov_n_n;float cov_n_e;float cov_n_d;float cov_e_e;float cov_e_d;float cov_d_d;u8 n_sats;u8 flags'
M('pos_llh_cov',0x211,PC)
M('pos_llh_cov_gnss',0x231,PC)
V='u32 tow;s32 n;s32 e;s32 d;u16 h_accuracy;u16 v_accuracy;u8 n_sats;u8 flags'
M('vel_ned',0x20E,V)
M('vel_ned_gnss',0x22E,V)
M('vel_ecef',0x20D,'u32 tow;s32 x;s32 y;s32 z;u16 accuracy;u8 n_sats;u8 flags')
M('baseline_heading',0x20F,'u32 tow;u32 heading;u8 n_sats;u8 flags')
M('age_corrections',0x210,'u32 tow;u16 age')
M('orient_euler',0x221,'u32 tow;s32 roll;s32 pitch;s32 yaw;float roll_accuracy;float pitch_accuracy;float yaw_accuracy;u8 flags')
M('angular_rate',0x222,'u32 tow;s32 x;s32 y;s32 z;u8 flags')
M('imu_raw',0x900,'u32 tow;u8 tow_f;s16 acc_x;s16 acc_y;s16 acc_z;s16 gyr_x;s16 gyr_y;s16 gyr_z')
M('imu_aux',0x901,'u8 imu_type;s16 temp;u8 imu_conf')
M('odometry',0x903,'u32 tow;s32 velocity;u8 flags')
M('wheeltick',0x904,'u64 time;u8 flags;u8 source;s32 ticks')
M('sbas_raw',0x7777,'gnss_signal sid;u32 tow;u8 message_type;u8 data 27')
M('soln_meta',0xFF0E,'u32 tow;u16 pdop;u16 hdop;u16 vdop;u16 age_corrections;u32 age_gnss;solution_input_type sol_in *119')
M('group_meta',0xFF0A,'u8 group_id;u8 flags;u8 n_group_msgs;u16 group_msgs *126')
M('gnss_time_offset',0xFF07,'s16 weeks;s32 milliseconds;s16 microseconds;u8 flags')
M('ssr_orbit_clock',0x5DD,'gps_time_sec time;gnss_signal sid;u8 update_interval;u8 iod_ssr;u32 iod;s32 radial;s32 along;s32 cross;s32 dot_radial;s32 dot_along;s32 dot_cross;s32 c0;s32 c1;s32 c2')
M('ssr_code_biases',0x5E1,'gps_time_sec time;gnss_signal sid;u8 update_interval;u8 iod_ssr;code_biases_content biases *81')
M('ssr_phase_biases',0x5E6,'gps_time_sec time;gnss_signal sid;u8 update_interval;u8 iod_ssr;u8 dispersive_bias;u8 mw_consistency;u16 yaw;s8 yaw_rate;phase_biases_content biases *30')
EXTRA_IDS = dict(SBP_MSG_OSR=0x640, SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A=0x5F0,
                 SBP_MSG_SSR_GRID_DEFINITION_DEP_A=0x5F5, SBP_MSG_SSR_STEC_CORRECTION_DEP_A=0x5EB)

def camel(n): return ''.join(p.capitalize() for p in n.split('_'))
def size(t):
    if t in PRIM: return PRIM[t]
    return sum(size(f[0])*(int(f[2]) if len(f)>2 else 1) for f in TYPES[t][2])
def ct(t, leg):
    if t in CPRIM: return CPRIM[t]
    return TYPES[t][1 if leg else 0]

def has_n_member(fields, name):
    return any(f[1]=='n_'+name for f in fields)

out=['/* generated by gen_sbp.py */','#ifndef SHIM_SBP_V4_H','#define SHIM_SBP_V4_H','#include <stddef.h>','#include <stdint.h>','#include <stdbool.h>',
 '#ifdef __cplusplus','extern "C" {','#endif',
 'typedef struct { size_t encoded_len; char data[256]; } sbp_string_t;']
for n in ORDER:
    v4,leg,fs=TYPES[n]
    out.append('typedef struct {'); 
    for f in fs: out.append('  %s %s%s;'%(ct(f[0],0),f[1],'[%s]'%f[2] if len(f)>2 else ''))
    out.append('} %s;'%v4)
for name,mid,fs,cap in MSGS:
    for f in fs:
        if len(f)>2 and f[2][0]=='*':
            out.append('#define SBP_MSG_%s_%s_MAX %su'%(cap,f[1].upper(),f[2][1:]))
    out.append('typedef struct {')
    for f in fs:
        if f[0]=='string': out.append('  sbp_string_t %s;'%f[1]); continue
        if len(f)>2 and f[2][0]=='*':
            out.append('  %s %s[%s];'%(ct(f[0],0),f[1],f[2][1:]))
            if not has_n_member(fs,f[1]): out.append('  uint8_t n_%s;'%f[1])
        else: out.append('  %s %s%s;'%(ct(f[0],0),f[1],'[%s]'%f[2] if len(f)>2 else ''))
    out.append('} sbp_msg_%s_t;'%name)
# gnss variants share the base typedef in real libsbp only by layout
out.append('typedef union {'); 
for name,*_ in MSGS: out.append('  sbp_msg_%s_t %s;'%(name,name))
out.append('} sbp_msg_t;')
out.append('#ifdef __cplusplus\n}\n#endif'); out.append('#endif')
open(INC+'/types_v4.h','w').write('\n'.join(out)+'\n')

out=['/* generated by gen_sbp.py */','#ifndef SHIM_SBP_IDS_H','#define SHIM_SBP_IDS_H']
for name,mid,fs,cap in MSGS: out.append('#define SBP_MSG_%s 0x%04X'%(cap,mid))
for k,v in EXTRA_IDS.items(): out.append('#define %s 0x%04X'%(k,v))
out.append('typedef enum {')
for name,mid,fs,cap in MSGS: out.append('  SbpMsg%s = 0x%04X,'%(camel(name),mid))
out.append('  SbpMsgAll = 0xFFFF\n} sbp_msg_type_t;\n#endif')
open(INC+'/sbp_msg_type.h','w').write('\n'.join(out)+'\n')

out=['/* generated by gen_sbp.py */','#ifndef SHIM_SBP_LEGACY_H','#define SHIM_SBP_LEGACY_H','#include <stdint.h>','#include <libsbp/sbp_msg_type.h>','#pragma pack(push, 1)']
for n in ORDER:
    v4,leg,fs=TYPES[n]
    out.append('typedef struct {')
    for f in fs: out.append('  %s %s%s;'%(ct(f[0],1),f[1],'[%s]'%f[2] if len(f)>2 else ''))
    out.append('} %s;'%leg)
for name,mid,fs,cap in MSGS:
    out.append('typedef struct {')
    for f in fs:
        t='char' if f[0]=='string' else ct(f[0],1)
        if len(f)>2: out.append('  %s %s[%s];'%(t,f[1],'0' if f[2][0]=='*' else f[2]))
        else: out.append('  %s %s;'%(t,f[1]))
    out.append('} msg_%s_t;'%name)
out.append('#pragma pack(pop)'); out.append('#endif')
open(INC+'/types_legacy.h','w').write('\n'.join(out)+'\n')

# codec
o=['/* generated by gen_sbp.py */','#include <libsbp/sbp.h>','#include <libsbp/v4/sbp_msg.h>','#include <stdio.h>','#include <string.h>',
'typedef struct { uint8_t *b; size_t cap, n; int err; } W;','typedef struct { const uint8_t *b; size_t len, n; int err; } R;',
'typedef struct { char *b; size_t cap, n; } D;',
'static void wr(W*w,const void*p,size_t k){ if(w->n+k>w->cap){w->err=1;return;} memcpy(w->b+w->n,p,k); w->n+=k; }',
'static void rd(R*r,void*p,size_t k){ if(r->n+k>r->len){r->err=1;memset(p,0,k);return;} memcpy(p,r->b+r->n,k); r->n+=k; }',
'__attribute__((format(printf,2,3))) static void dp(D*d,const char*f,...);',
'#include <stdarg.h>',
'static void dp(D*d,const char*f,...){ va_list a; va_start(a,f); if(d->n<d->cap){int k=vsnprintf(d->b+d->n,d->cap-d->n,f,a); if(k>0){d->n+=(size_t)k; if(d->n>d->cap)d->n=d->cap;}} va_end(a);}',
]
FMT=dict(u8='%u',s8='%d',u16='%u',s16='%d',u32='%u',s32='%d',u64='%llu',s64='%lld',float='%.9g',double='%.17g',char='%d')
for n in ORDER:
    v4,leg,fs=TYPES[n]
    for kind in 'wrd':
        A={'w':'W*w','r':'R*w','d':'D*w'}[kind]
        c='' if kind=='r' else 'const '
        o.append('static void %s_%s(%s,%s%s*m){'%(kind,n,A,c,v4))
        if kind=='d': o.append('  dp(w,"{");')
        for f in fs:
            if f[0] in PRIM:
                if kind=='w': o.append('  wr(w,&m->%s,sizeof m->%s);'%(f[1],f[1]))
                elif kind=='r': o.append('  rd(w,&m->%s,sizeof m->%s);'%(f[1],f[1]))
                else: o.append('  dp(w,"%s=%s ",m->%s);'%(f[1],FMT[f[0]],f[1]))
            else:
                if kind=='d': o.append('  dp(w,"%s=");'%f[1])
                o.append('  %s_%s(w,&m->%s);'%(kind,f[0],f[1]))
        if kind=='d': o.append('  dp(w,"} ");')
        o.append('}')
def emit_one(kind,t,expr):
    if t in PRIM:
        if kind=='w': return 'wr(w,&%s,sizeof %s);'%(expr,expr)
        if kind=='r': return 'rd(w,&%s,sizeof %s);'%(expr,expr)
        cast='(unsigned long long)' if t=='u64' else ''
        return 'dp(w,"%s ",%s%s);'%(FMT[t],cast,expr)
    return '%s_%s(w,&%s);'%(kind,t,expr)
for kind in 'wrd':
    A={'w':'W*w','r':'R*w','d':'D*w'}[kind]; c='' if kind=='r' else 'const '
    for name,mid,fs,cap in MSGS:
        o.append('static void %sm_%s(%s,%ssbp_msg_%s_t*m){'%(kind,name,A,c,name))
        for f in fs:
            t,fn=f[0],f[1]
            if kind=='d': o.append('  dp(w,"%s=");'%fn)
            if t=='string':
                if kind=='w': o.append('  wr(w,m->%s.data,m->%s.encoded_len);'%(fn,fn))
                elif kind=='r': o.append('  m->%s.encoded_len=w->len-w->n; rd(w,m->%s.data,m->%s.encoded_len); m->%s.data[m->%s.encoded_len]=0;'%((fn,)*5))
                else: o.append('  dp(w,"[%%zu]\\"%%.*s\\"",m->%s.encoded_len,(int)m->%s.encoded_len,m->%s.data);'%(fn,fn,fn))
            elif len(f)>2 and f[2][0]=='*':
                mx=f[2][1:]; sz=size(t)
                if kind=='r':
                    if has_n_member(fs,fn): o.append('  if(m->n_%s>%s)w->err=1;'%(fn,mx)); o.append('  for(size_t i=0;i<m->n_%s && i<%s;i++){%s}'%(fn,mx,emit_one(kind,t,'m->%s[i]'%fn)))
                    else: o.append('  {size_t k=(w->len-w->n)/%d; if(k>%s)k=%s; m->n_%s=(uint8_t)k; for(size_t i=0;i<k;i++){%s}}'%(sz,mx,mx,fn,emit_one(kind,t,'m->%s[i]'%fn)))
                else:
                    o.append('  for(size_t i=0;i<m->n_%s && i<%s;i++){%s}'%(fn,mx,emit_one(kind,t,'m->%s[i]'%fn)))
                    if kind=='w': o.append('  if(m->n_%s>%s)w->err=1;'%(fn,mx))
            elif len(f)>2:
                o.append('  for(size_t i=0;i<%s;i++){%s}'%(f[2],emit_one(kind,t,'m->%s[i]'%fn)))
            else: o.append('  '+emit_one(kind,t,'m->'+fn))
        o.append('}')
o.append('s8 sbp_message_encode(uint8_t *buf, uint8_t len, uint8_t *n_written, sbp_msg_type_t t, const sbp_msg_t *msg){ W w={buf,len,0,0}; switch((int)t){')
for name,mid,fs,cap in MSGS: o.append('case 0x%04X: wm_%s(&w,&msg->%s);break;'%(mid,name,name))
o.append('default: return SBP_ENCODE_ERROR;} if(w.err) return SBP_ENCODE_ERROR; if(n_written)*n_written=(uint8_t)w.n; return SBP_OK;}')
o.append('s8 sbp_message_decode(const uint8_t *buf, uint8_t len, uint8_t *n_read, sbp_msg_type_t t, sbp_msg_t *msg){ R w={buf,len,0,0}; switch((int)t){')
for name,mid,fs,cap in MSGS: o.append('case 0x%04X: rm_%s(&w,&msg->%s);break;'%(mid,name,name))
o.append('default: return SBP_DECODE_ERROR;} if(w.err) return SBP_DECODE_ERROR; if(n_read)*n_read=(uint8_t)w.n; return SBP_OK;}')
o.append('size_t shim_sbp_dump(char *buf,size_t cap,int t,const sbp_msg_t*msg){ D w={buf,cap,0}; switch(t){')
for name,mid,fs,cap in MSGS: o.append('case 0x%04X: dp(&w,"%s: ");dm_%s(&w,&msg->%s);break;'%(mid,name.upper(),name,name))
o.append('default: dp(&w,"type 0x%04X",(unsigned)t);} return w.n;}')
open(HERE+'/src/sbp_gen.c','w').write('\n'.join(o)+'\n')
