/* generated by gen_sbp.py */
#include <libsbp/sbp.h>
#include <libsbp/v4/sbp_msg.h>
#include <stdio.h>
#include <string.h>
typedef struct { uint8_t *b; size_t cap, n; int err; } W;
typedef struct { const uint8_t *b; size_t len, n; int err; } R;
typedef struct { char *b; size_t cap, n; } D;
static void wr(W*w,const void*p,size_t k){ if(w->n+k>w->cap){w->err=1;return;} memcpy(w->b+w->n,p,k); w->n+=k; }
static void rd(R*r,void*p,size_t k){ if(r->n+k>r->len){r->err=1;memset(p,0,k);return;} memcpy(p,r->b+r->n,k); r->n+=k; }
__attribute__((format(printf,2,3))) static void dp(D*d,const char*f,...);
#include <stdarg.h>
static void dp(D*d,const char*f,...){ va_list a; va_start(a,f); if(d->n<d->cap){int k=vsnprintf(d->b+d->n,d->cap-d->n,f,a); if(k>0){d->n+=(size_t)k; if(d->n>d->cap)d->n=d->cap;}} va_end(a);}
static void w_gnss_signal(W*w,const sbp_v4_gnss_signal_t*m){
  wr(w,&m->sat,sizeof m->sat);
  wr(w,&m->code,sizeof m->code);
}
static void r_gnss_signal(R*w,sbp_v4_gnss_signal_t*m){
  rd(w,&m->sat,sizeof m->sat);
  rd(w,&m->code,sizeof m->code);
}
static void d_gnss_signal(D*w,const sbp_v4_gnss_signal_t*m){
  dp(w,"{");
  dp(w,"sat=%u ",m->sat);
  dp(w,"code=%u ",m->code);
  dp(w,"} ");
}
static void w_gps_time_sec(W*w,const sbp_gps_time_sec_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->wn,sizeof m->wn);
}
static void r_gps_time_sec(R*w,sbp_gps_time_sec_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->wn,sizeof m->wn);
}
static void d_gps_time_sec(D*w,const sbp_gps_time_sec_t*m){
  dp(w,"{");
  dp(w,"tow=%u ",m->tow);
  dp(w,"wn=%u ",m->wn);
  dp(w,"} ");
}
static void w_gps_time(W*w,const sbp_v4_gps_time_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->ns_residual,sizeof m->ns_residual);
  wr(w,&m->wn,sizeof m->wn);
}
static void r_gps_time(R*w,sbp_v4_gps_time_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->ns_residual,sizeof m->ns_residual);
  rd(w,&m->wn,sizeof m->wn);
}
static void d_gps_time(D*w,const sbp_v4_gps_time_t*m){
  dp(w,"{");
  dp(w,"tow=%u ",m->tow);
  dp(w,"ns_residual=%d ",m->ns_residual);
  dp(w,"wn=%u ",m->wn);
  dp(w,"} ");
}
static void w_carrier_phase(W*w,const sbp_carrier_phase_t*m){
  wr(w,&m->i,sizeof m->i);
  wr(w,&m->f,sizeof m->f);
}
static void r_carrier_phase(R*w,sbp_carrier_phase_t*m){
  rd(w,&m->i,sizeof m->i);
  rd(w,&m->f,sizeof m->f);
}
static void d_carrier_phase(D*w,const sbp_carrier_phase_t*m){
  dp(w,"{");
  dp(w,"i=%d ",m->i);
  dp(w,"f=%u ",m->f);
  dp(w,"} ");
}
static void w_doppler(W*w,const sbp_doppler_t*m){
  wr(w,&m->i,sizeof m->i);
  wr(w,&m->f,sizeof m->f);
}
static void r_doppler(R*w,sbp_doppler_t*m){
  rd(w,&m->i,sizeof m->i);
  rd(w,&m->f,sizeof m->f);
}
static void d_doppler(D*w,const sbp_doppler_t*m){
  dp(w,"{");
  dp(w,"i=%d ",m->i);
  dp(w,"f=%u ",m->f);
  dp(w,"} ");
}
static void w_observation_header(W*w,const sbp_observation_header_t*m){
  w_gps_time(w,&m->t);
  wr(w,&m->n_obs,sizeof m->n_obs);
}
static void r_observation_header(R*w,sbp_observation_header_t*m){
  r_gps_time(w,&m->t);
  rd(w,&m->n_obs,sizeof m->n_obs);
}
static void d_observation_header(D*w,const sbp_observation_header_t*m){
  dp(w,"{");
  dp(w,"t=");
  d_gps_time(w,&m->t);
  dp(w,"n_obs=%u ",m->n_obs);
  dp(w,"} ");
}
static void w_packed_obs_content(W*w,const sbp_packed_obs_content_t*m){
  wr(w,&m->P,sizeof m->P);
  w_carrier_phase(w,&m->L);
  w_doppler(w,&m->D);
  wr(w,&m->cn0,sizeof m->cn0);
  wr(w,&m->lock,sizeof m->lock);
  wr(w,&m->flags,sizeof m->flags);
  w_gnss_signal(w,&m->sid);
}
static void r_packed_obs_content(R*w,sbp_packed_obs_content_t*m){
  rd(w,&m->P,sizeof m->P);
  r_carrier_phase(w,&m->L);
  r_doppler(w,&m->D);
  rd(w,&m->cn0,sizeof m->cn0);
  rd(w,&m->lock,sizeof m->lock);
  rd(w,&m->flags,sizeof m->flags);
  r_gnss_signal(w,&m->sid);
}
static void d_packed_obs_content(D*w,const sbp_packed_obs_content_t*m){
  dp(w,"{");
  dp(w,"P=%u ",m->P);
  dp(w,"L=");
  d_carrier_phase(w,&m->L);
  dp(w,"D=");
  d_doppler(w,&m->D);
  dp(w,"cn0=%u ",m->cn0);
  dp(w,"lock=%u ",m->lock);
  dp(w,"flags=%u ",m->flags);
  dp(w,"sid=");
  d_gnss_signal(w,&m->sid);
  dp(w,"} ");
}
static void w_ephemeris_common_content(W*w,const sbp_ephemeris_common_content_t*m){
  w_gnss_signal(w,&m->sid);
  w_gps_time_sec(w,&m->toe);
  wr(w,&m->ura,sizeof m->ura);
  wr(w,&m->fit_interval,sizeof m->fit_interval);
  wr(w,&m->valid,sizeof m->valid);
  wr(w,&m->health_bits,sizeof m->health_bits);
}
static void r_ephemeris_common_content(R*w,sbp_ephemeris_common_content_t*m){
  r_gnss_signal(w,&m->sid);
  r_gps_time_sec(w,&m->toe);
  rd(w,&m->ura,sizeof m->ura);
  rd(w,&m->fit_interval,sizeof m->fit_interval);
  rd(w,&m->valid,sizeof m->valid);
  rd(w,&m->health_bits,sizeof m->health_bits);
}
static void d_ephemeris_common_content(D*w,const sbp_ephemeris_common_content_t*m){
  dp(w,"{");
  dp(w,"sid=");
  d_gnss_signal(w,&m->sid);
  dp(w,"toe=");
  d_gps_time_sec(w,&m->toe);
  dp(w,"ura=%.9g ",m->ura);
  dp(w,"fit_interval=%u ",m->fit_interval);
  dp(w,"valid=%u ",m->valid);
  dp(w,"health_bits=%u ",m->health_bits);
  dp(w,"} ");
}
static void w_code_biases_content(W*w,const sbp_code_biases_content_t*m){
  wr(w,&m->code,sizeof m->code);
  wr(w,&m->value,sizeof m->value);
}
static void r_code_biases_content(R*w,sbp_code_biases_content_t*m){
  rd(w,&m->code,sizeof m->code);
  rd(w,&m->value,sizeof m->value);
}
static void d_code_biases_content(D*w,const sbp_code_biases_content_t*m){
  dp(w,"{");
  dp(w,"code=%u ",m->code);
  dp(w,"value=%d ",m->value);
  dp(w,"} ");
}
static void w_phase_biases_content(W*w,const sbp_phase_biases_content_t*m){
  wr(w,&m->code,sizeof m->code);
  wr(w,&m->integer_indicator,sizeof m->integer_indicator);
  wr(w,&m->widelane_integer_indicator,sizeof m->widelane_integer_indicator);
  wr(w,&m->discontinuity_counter,sizeof m->discontinuity_counter);
  wr(w,&m->bias,sizeof m->bias);
}
static void r_phase_biases_content(R*w,sbp_phase_biases_content_t*m){
  rd(w,&m->code,sizeof m->code);
  rd(w,&m->integer_indicator,sizeof m->integer_indicator);
  rd(w,&m->widelane_integer_indicator,sizeof m->widelane_integer_indicator);
  rd(w,&m->discontinuity_counter,sizeof m->discontinuity_counter);
  rd(w,&m->bias,sizeof m->bias);
}
static void d_phase_biases_content(D*w,const sbp_phase_biases_content_t*m){
  dp(w,"{");
  dp(w,"code=%u ",m->code);
  dp(w,"integer_indicator=%u ",m->integer_indicator);
  dp(w,"widelane_integer_indicator=%u ",m->widelane_integer_indicator);
  dp(w,"discontinuity_counter=%u ",m->discontinuity_counter);
  dp(w,"bias=%d ",m->bias);
  dp(w,"} ");
}
static void w_measurement_state(W*w,const sbp_measurement_state_t*m){
  w_gnss_signal(w,&m->mesid);
  wr(w,&m->cn0,sizeof m->cn0);
}
static void r_measurement_state(R*w,sbp_measurement_state_t*m){
  r_gnss_signal(w,&m->mesid);
  rd(w,&m->cn0,sizeof m->cn0);
}
static void d_measurement_state(D*w,const sbp_measurement_state_t*m){
  dp(w,"{");
  dp(w,"mesid=");
  d_gnss_signal(w,&m->mesid);
  dp(w,"cn0=%u ",m->cn0);
  dp(w,"} ");
}
static void w_sv_az_el(W*w,const sbp_sv_az_el_t*m){
  w_gnss_signal(w,&m->sid);
  wr(w,&m->az,sizeof m->az);
  wr(w,&m->el,sizeof m->el);
}
static void r_sv_az_el(R*w,sbp_sv_az_el_t*m){
  r_gnss_signal(w,&m->sid);
  rd(w,&m->az,sizeof m->az);
  rd(w,&m->el,sizeof m->el);
}
static void d_sv_az_el(D*w,const sbp_sv_az_el_t*m){
  dp(w,"{");
  dp(w,"sid=");
  d_gnss_signal(w,&m->sid);
  dp(w,"az=%u ",m->az);
  dp(w,"el=%d ",m->el);
  dp(w,"} ");
}
static void w_solution_input_type(W*w,const sbp_solution_input_type_t*m){
  wr(w,&m->sensor_type,sizeof m->sensor_type);
  wr(w,&m->flags,sizeof m->flags);
}
static void r_solution_input_type(R*w,sbp_solution_input_type_t*m){
  rd(w,&m->sensor_type,sizeof m->sensor_type);
  rd(w,&m->flags,sizeof m->flags);
}
static void d_solution_input_type(D*w,const sbp_solution_input_type_t*m){
  dp(w,"{");
  dp(w,"sensor_type=%u ",m->sensor_type);
  dp(w,"flags=%u ",m->flags);
  dp(w,"} ");
}
static void wm_obs(W*w,const sbp_msg_obs_t*m){
  w_observation_header(w,&m->header);
  for(size_t i=0;i<m->n_obs && i<14;i++){w_packed_obs_content(w,&m->obs[i]);}
  if(m->n_obs>14)w->err=1;
}
static void wm_base_pos_ecef(W*w,const sbp_msg_base_pos_ecef_t*m){
  wr(w,&m->x,sizeof m->x);
  wr(w,&m->y,sizeof m->y);
  wr(w,&m->z,sizeof m->z);
}
static void wm_ephemeris_gps(W*w,const sbp_msg_ephemeris_gps_t*m){
  w_ephemeris_common_content(w,&m->common);
  wr(w,&m->tgd,sizeof m->tgd);
  wr(w,&m->c_rs,sizeof m->c_rs);
  wr(w,&m->c_rc,sizeof m->c_rc);
  wr(w,&m->c_uc,sizeof m->c_uc);
  wr(w,&m->c_us,sizeof m->c_us);
  wr(w,&m->c_ic,sizeof m->c_ic);
  wr(w,&m->c_is,sizeof m->c_is);
  wr(w,&m->dn,sizeof m->dn);
  wr(w,&m->m0,sizeof m->m0);
  wr(w,&m->ecc,sizeof m->ecc);
  wr(w,&m->sqrta,sizeof m->sqrta);
  wr(w,&m->omega0,sizeof m->omega0);
  wr(w,&m->omegadot,sizeof m->omegadot);
  wr(w,&m->w,sizeof m->w);
  wr(w,&m->inc,sizeof m->inc);
  wr(w,&m->inc_dot,sizeof m->inc_dot);
  wr(w,&m->af0,sizeof m->af0);
  wr(w,&m->af1,sizeof m->af1);
  wr(w,&m->af2,sizeof m->af2);
  w_gps_time_sec(w,&m->toc);
  wr(w,&m->iode,sizeof m->iode);
  wr(w,&m->iodc,sizeof m->iodc);
}
static void wm_ephemeris_qzss(W*w,const sbp_msg_ephemeris_qzss_t*m){
  w_ephemeris_common_content(w,&m->common);
  wr(w,&m->tgd,sizeof m->tgd);
  wr(w,&m->c_rs,sizeof m->c_rs);
  wr(w,&m->c_rc,sizeof m->c_rc);
  wr(w,&m->c_uc,sizeof m->c_uc);
  wr(w,&m->c_us,sizeof m->c_us);
  wr(w,&m->c_ic,sizeof m->c_ic);
  wr(w,&m->c_is,sizeof m->c_is);
  wr(w,&m->dn,sizeof m->dn);
  wr(w,&m->m0,sizeof m->m0);
  wr(w,&m->ecc,sizeof m->ecc);
  wr(w,&m->sqrta,sizeof m->sqrta);
  wr(w,&m->omega0,sizeof m->omega0);
  wr(w,&m->omegadot,sizeof m->omegadot);
  wr(w,&m->w,sizeof m->w);
  wr(w,&m->inc,sizeof m->inc);
  wr(w,&m->inc_dot,sizeof m->inc_dot);
  wr(w,&m->af0,sizeof m->af0);
  wr(w,&m->af1,sizeof m->af1);
  wr(w,&m->af2,sizeof m->af2);
  w_gps_time_sec(w,&m->toc);
  wr(w,&m->iode,sizeof m->iode);
  wr(w,&m->iodc,sizeof m->iodc);
}
static void wm_ephemeris_bds(W*w,const sbp_msg_ephemeris_bds_t*m){
  w_ephemeris_common_content(w,&m->common);
  wr(w,&m->tgd1,sizeof m->tgd1);
  wr(w,&m->tgd2,sizeof m->tgd2);
  wr(w,&m->c_rs,sizeof m->c_rs);
  wr(w,&m->c_rc,sizeof m->c_rc);
  wr(w,&m->c_uc,sizeof m->c_uc);
  wr(w,&m->c_us,sizeof m->c_us);
  wr(w,&m->c_ic,sizeof m->c_ic);
  wr(w,&m->c_is,sizeof m->c_is);
  wr(w,&m->dn,sizeof m->dn);
  wr(w,&m->m0,sizeof m->m0);
  wr(w,&m->ecc,sizeof m->ecc);
  wr(w,&m->sqrta,sizeof m->sqrta);
  wr(w,&m->omega0,sizeof m->omega0);
  wr(w,&m->omegadot,sizeof m->omegadot);
  wr(w,&m->w,sizeof m->w);
  wr(w,&m->inc,sizeof m->inc);
  wr(w,&m->inc_dot,sizeof m->inc_dot);
  wr(w,&m->af0,sizeof m->af0);
  wr(w,&m->af1,sizeof m->af1);
  wr(w,&m->af2,sizeof m->af2);
  w_gps_time_sec(w,&m->toc);
  wr(w,&m->iode,sizeof m->iode);
  wr(w,&m->iodc,sizeof m->iodc);
}
static void wm_ephemeris_gal(W*w,const sbp_msg_ephemeris_gal_t*m){
  w_ephemeris_common_content(w,&m->common);
  wr(w,&m->bgd_e1e5a,sizeof m->bgd_e1e5a);
  wr(w,&m->bgd_e1e5b,sizeof m->bgd_e1e5b);
  wr(w,&m->c_rs,sizeof m->c_rs);
  wr(w,&m->c_rc,sizeof m->c_rc);
  wr(w,&m->c_uc,sizeof m->c_uc);
  wr(w,&m->c_us,sizeof m->c_us);
  wr(w,&m->c_ic,sizeof m->c_ic);
  wr(w,&m->c_is,sizeof m->c_is);
  wr(w,&m->dn,sizeof m->dn);
  wr(w,&m->m0,sizeof m->m0);
  wr(w,&m->ecc,sizeof m->ecc);
  wr(w,&m->sqrta,sizeof m->sqrta);
  wr(w,&m->omega0,sizeof m->omega0);
  wr(w,&m->omegadot,sizeof m->omegadot);
  wr(w,&m->w,sizeof m->w);
  wr(w,&m->inc,sizeof m->inc);
  wr(w,&m->inc_dot,sizeof m->inc_dot);
  wr(w,&m->af0,sizeof m->af0);
  wr(w,&m->af1,sizeof m->af1);
  wr(w,&m->af2,sizeof m->af2);
  w_gps_time_sec(w,&m->toc);
  wr(w,&m->iode,sizeof m->iode);
  wr(w,&m->iodc,sizeof m->iodc);
  wr(w,&m->source,sizeof m->source);
}
static void wm_ephemeris_glo(W*w,const sbp_msg_ephemeris_glo_t*m){
  w_ephemeris_common_content(w,&m->common);
  wr(w,&m->gamma,sizeof m->gamma);
  wr(w,&m->tau,sizeof m->tau);
  wr(w,&m->d_tau,sizeof m->d_tau);
  for(size_t i=0;i<3;i++){wr(w,&m->pos[i],sizeof m->pos[i]);}
  for(size_t i=0;i<3;i++){wr(w,&m->vel[i],sizeof m->vel[i]);}
  for(size_t i=0;i<3;i++){wr(w,&m->acc[i],sizeof m->acc[i]);}
  wr(w,&m->fcn,sizeof m->fcn);
  wr(w,&m->iod,sizeof m->iod);
}
static void wm_glo_biases(W*w,const sbp_msg_glo_biases_t*m){
  wr(w,&m->mask,sizeof m->mask);
  wr(w,&m->l1ca_bias,sizeof m->l1ca_bias);
  wr(w,&m->l1p_bias,sizeof m->l1p_bias);
  wr(w,&m->l2ca_bias,sizeof m->l2ca_bias);
  wr(w,&m->l2p_bias,sizeof m->l2p_bias);
}
static void wm_sv_az_el(W*w,const sbp_msg_sv_az_el_t*m){
  for(size_t i=0;i<m->n_azel && i<63;i++){w_sv_az_el(w,&m->azel[i]);}
  if(m->n_azel>63)w->err=1;
}
static void wm_measurement_state(W*w,const sbp_msg_measurement_state_t*m){
  for(size_t i=0;i<m->n_states && i<85;i++){w_measurement_state(w,&m->states[i]);}
  if(m->n_states>85)w->err=1;
}
static void wm_log(W*w,const sbp_msg_log_t*m){
  wr(w,&m->level,sizeof m->level);
  wr(w,m->text.data,m->text.encoded_len);
}
static void wm_fwd(W*w,const sbp_msg_fwd_t*m){
  wr(w,&m->source,sizeof m->source);
  wr(w,&m->protocol,sizeof m->protocol);
  for(size_t i=0;i<m->n_fwd_payload && i<253;i++){wr(w,&m->fwd_payload[i],sizeof m->fwd_payload[i]);}
  if(m->n_fwd_payload>253)w->err=1;
}
static void wm_gps_time(W*w,const sbp_msg_gps_time_t*m){
  wr(w,&m->wn,sizeof m->wn);
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->ns_residual,sizeof m->ns_residual);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_gps_time_gnss(W*w,const sbp_msg_gps_time_gnss_t*m){
  wr(w,&m->wn,sizeof m->wn);
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->ns_residual,sizeof m->ns_residual);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_utc_time(W*w,const sbp_msg_utc_time_t*m){
  wr(w,&m->flags,sizeof m->flags);
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->year,sizeof m->year);
  wr(w,&m->month,sizeof m->month);
  wr(w,&m->day,sizeof m->day);
  wr(w,&m->hours,sizeof m->hours);
  wr(w,&m->minutes,sizeof m->minutes);
  wr(w,&m->seconds,sizeof m->seconds);
  wr(w,&m->ns,sizeof m->ns);
}
static void wm_utc_time_gnss(W*w,const sbp_msg_utc_time_gnss_t*m){
  wr(w,&m->flags,sizeof m->flags);
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->year,sizeof m->year);
  wr(w,&m->month,sizeof m->month);
  wr(w,&m->day,sizeof m->day);
  wr(w,&m->hours,sizeof m->hours);
  wr(w,&m->minutes,sizeof m->minutes);
  wr(w,&m->seconds,sizeof m->seconds);
  wr(w,&m->ns,sizeof m->ns);
}
static void wm_dops(W*w,const sbp_msg_dops_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->gdop,sizeof m->gdop);
  wr(w,&m->pdop,sizeof m->pdop);
  wr(w,&m->tdop,sizeof m->tdop);
  wr(w,&m->hdop,sizeof m->hdop);
  wr(w,&m->vdop,sizeof m->vdop);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_pos_llh(W*w,const sbp_msg_pos_llh_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->lat,sizeof m->lat);
  wr(w,&m->lon,sizeof m->lon);
  wr(w,&m->height,sizeof m->height);
  wr(w,&m->h_accuracy,sizeof m->h_accuracy);
  wr(w,&m->v_accuracy,sizeof m->v_accuracy);
  wr(w,&m->n_sats,sizeof m->n_sats);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_pos_llh_gnss(W*w,const sbp_msg_pos_llh_gnss_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->lat,sizeof m->lat);
  wr(w,&m->lon,sizeof m->lon);
  wr(w,&m->height,sizeof m->height);
  wr(w,&m->h_accuracy,sizeof m->h_accuracy);
  wr(w,&m->v_accuracy,sizeof m->v_accuracy);
  wr(w,&m->n_sats,sizeof m->n_sats);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_pos_llh_cov(W*w,const sbp_msg_pos_llh_cov_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->lat,sizeof m->lat);
  wr(w,&m->lon,sizeof m->lon);
  wr(w,&m->height,sizeof m->height);
  wr(w,&m->cov_n_n,sizeof m->cov_n_n);
  wr(w,&m->cov_n_e,sizeof m->cov_n_e);
  wr(w,&m->cov_n_d,sizeof m->cov_n_d);
  wr(w,&m->cov_e_e,sizeof m->cov_e_e);
  wr(w,&m->cov_e_d,sizeof m->cov_e_d);
  wr(w,&m->cov_d_d,sizeof m->cov_d_d);
  wr(w,&m->n_sats,sizeof m->n_sats);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_pos_llh_cov_gnss(W*w,const sbp_msg_pos_llh_cov_gnss_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->lat,sizeof m->lat);
  wr(w,&m->lon,sizeof m->lon);
  wr(w,&m->height,sizeof m->height);
  wr(w,&m->cov_n_n,sizeof m->cov_n_n);
  wr(w,&m->cov_n_e,sizeof m->cov_n_e);
  wr(w,&m->cov_n_d,sizeof m->cov_n_d);
  wr(w,&m->cov_e_e,sizeof m->cov_e_e);
  wr(w,&m->cov_e_d,sizeof m->cov_e_d);
  wr(w,&m->cov_d_d,sizeof m->cov_d_d);
  wr(w,&m->n_sats,sizeof m->n_sats);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_vel_ned(W*w,const sbp_msg_vel_ned_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->n,sizeof m->n);
  wr(w,&m->e,sizeof m->e);
  wr(w,&m->d,sizeof m->d);
  wr(w,&m->h_accuracy,sizeof m->h_accuracy);
  wr(w,&m->v_accuracy,sizeof m->v_accuracy);
  wr(w,&m->n_sats,sizeof m->n_sats);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_vel_ned_gnss(W*w,const sbp_msg_vel_ned_gnss_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->n,sizeof m->n);
  wr(w,&m->e,sizeof m->e);
  wr(w,&m->d,sizeof m->d);
  wr(w,&m->h_accuracy,sizeof m->h_accuracy);
  wr(w,&m->v_accuracy,sizeof m->v_accuracy);
  wr(w,&m->n_sats,sizeof m->n_sats);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_vel_ecef(W*w,const sbp_msg_vel_ecef_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->x,sizeof m->x);
  wr(w,&m->y,sizeof m->y);
  wr(w,&m->z,sizeof m->z);
  wr(w,&m->accuracy,sizeof m->accuracy);
  wr(w,&m->n_sats,sizeof m->n_sats);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_baseline_heading(W*w,const sbp_msg_baseline_heading_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->heading,sizeof m->heading);
  wr(w,&m->n_sats,sizeof m->n_sats);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_age_corrections(W*w,const sbp_msg_age_corrections_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->age,sizeof m->age);
}
static void wm_orient_euler(W*w,const sbp_msg_orient_euler_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->roll,sizeof m->roll);
  wr(w,&m->pitch,sizeof m->pitch);
  wr(w,&m->yaw,sizeof m->yaw);
  wr(w,&m->roll_accuracy,sizeof m->roll_accuracy);
  wr(w,&m->pitch_accuracy,sizeof m->pitch_accuracy);
  wr(w,&m->yaw_accuracy,sizeof m->yaw_accuracy);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_angular_rate(W*w,const sbp_msg_angular_rate_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->x,sizeof m->x);
  wr(w,&m->y,sizeof m->y);
  wr(w,&m->z,sizeof m->z);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_imu_raw(W*w,const sbp_msg_imu_raw_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->tow_f,sizeof m->tow_f);
  wr(w,&m->acc_x,sizeof m->acc_x);
  wr(w,&m->acc_y,sizeof m->acc_y);
  wr(w,&m->acc_z,sizeof m->acc_z);
  wr(w,&m->gyr_x,sizeof m->gyr_x);
  wr(w,&m->gyr_y,sizeof m->gyr_y);
  wr(w,&m->gyr_z,sizeof m->gyr_z);
}
static void wm_imu_aux(W*w,const sbp_msg_imu_aux_t*m){
  wr(w,&m->imu_type,sizeof m->imu_type);
  wr(w,&m->temp,sizeof m->temp);
  wr(w,&m->imu_conf,sizeof m->imu_conf);
}
static void wm_odometry(W*w,const sbp_msg_odometry_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->velocity,sizeof m->velocity);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_wheeltick(W*w,const sbp_msg_wheeltick_t*m){
  wr(w,&m->time,sizeof m->time);
  wr(w,&m->flags,sizeof m->flags);
  wr(w,&m->source,sizeof m->source);
  wr(w,&m->ticks,sizeof m->ticks);
}
static void wm_sbas_raw(W*w,const sbp_msg_sbas_raw_t*m){
  w_gnss_signal(w,&m->sid);
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->message_type,sizeof m->message_type);
  for(size_t i=0;i<27;i++){wr(w,&m->data[i],sizeof m->data[i]);}
}
static void wm_soln_meta(W*w,const sbp_msg_soln_meta_t*m){
  wr(w,&m->tow,sizeof m->tow);
  wr(w,&m->pdop,sizeof m->pdop);
  wr(w,&m->hdop,sizeof m->hdop);
  wr(w,&m->vdop,sizeof m->vdop);
  wr(w,&m->age_corrections,sizeof m->age_corrections);
  wr(w,&m->age_gnss,sizeof m->age_gnss);
  for(size_t i=0;i<m->n_sol_in && i<119;i++){w_solution_input_type(w,&m->sol_in[i]);}
  if(m->n_sol_in>119)w->err=1;
}
static void wm_group_meta(W*w,const sbp_msg_group_meta_t*m){
  wr(w,&m->group_id,sizeof m->group_id);
  wr(w,&m->flags,sizeof m->flags);
  wr(w,&m->n_group_msgs,sizeof m->n_group_msgs);
  for(size_t i=0;i<m->n_group_msgs && i<126;i++){wr(w,&m->group_msgs[i],sizeof m->group_msgs[i]);}
  if(m->n_group_msgs>126)w->err=1;
}
static void wm_gnss_time_offset(W*w,const sbp_msg_gnss_time_offset_t*m){
  wr(w,&m->weeks,sizeof m->weeks);
  wr(w,&m->milliseconds,sizeof m->milliseconds);
  wr(w,&m->microseconds,sizeof m->microseconds);
  wr(w,&m->flags,sizeof m->flags);
}
static void wm_ssr_orbit_clock(W*w,const sbp_msg_ssr_orbit_clock_t*m){
  w_gps_time_sec(w,&m->time);
  w_gnss_signal(w,&m->sid);
  wr(w,&m->update_interval,sizeof m->update_interval);
  wr(w,&m->iod_ssr,sizeof m->iod_ssr);
  wr(w,&m->iod,sizeof m->iod);
  wr(w,&m->radial,sizeof m->radial);
  wr(w,&m->along,sizeof m->along);
  wr(w,&m->cross,sizeof m->cross);
  wr(w,&m->dot_radial,sizeof m->dot_radial);
  wr(w,&m->dot_along,sizeof m->dot_along);
  wr(w,&m->dot_cross,sizeof m->dot_cross);
  wr(w,&m->c0,sizeof m->c0);
  wr(w,&m->c1,sizeof m->c1);
  wr(w,&m->c2,sizeof m->c2);
}
static void wm_ssr_code_biases(W*w,const sbp_msg_ssr_code_biases_t*m){
  w_gps_time_sec(w,&m->time);
  w_gnss_signal(w,&m->sid);
  wr(w,&m->update_interval,sizeof m->update_interval);
  wr(w,&m->iod_ssr,sizeof m->iod_ssr);
  for(size_t i=0;i<m->n_biases && i<81;i++){w_code_biases_content(w,&m->biases[i]);}
  if(m->n_biases>81)w->err=1;
}
static void wm_ssr_phase_biases(W*w,const sbp_msg_ssr_phase_biases_t*m){
  w_gps_time_sec(w,&m->time);
  w_gnss_signal(w,&m->sid);
  wr(w,&m->update_interval,sizeof m->update_interval);
  wr(w,&m->iod_ssr,sizeof m->iod_ssr);
  wr(w,&m->dispersive_bias,sizeof m->dispersive_bias);
  wr(w,&m->mw_consistency,sizeof m->mw_consistency);
  wr(w,&m->yaw,sizeof m->yaw);
  wr(w,&m->yaw_rate,sizeof m->yaw_rate);
  for(size_t i=0;i<m->n_biases && i<30;i++){w_phase_biases_content(w,&m->biases[i]);}
  if(m->n_biases>30)w->err=1;
}
static void rm_obs(R*w,sbp_msg_obs_t*m){
  r_observation_header(w,&m->header);
  {size_t k=(w->len-w->n)/17; if(k>14)k=14; m->n_obs=(uint8_t)k; for(size_t i=0;i<k;i++){r_packed_obs_content(w,&m->obs[i]);}}
}
static void rm_base_pos_ecef(R*w,sbp_msg_base_pos_ecef_t*m){
  rd(w,&m->x,sizeof m->x);
  rd(w,&m->y,sizeof m->y);
  rd(w,&m->z,sizeof m->z);
}
static void rm_ephemeris_gps(R*w,sbp_msg_ephemeris_gps_t*m){
  r_ephemeris_common_content(w,&m->common);
  rd(w,&m->tgd,sizeof m->tgd);
  rd(w,&m->c_rs,sizeof m->c_rs);
  rd(w,&m->c_rc,sizeof m->c_rc);
  rd(w,&m->c_uc,sizeof m->c_uc);
  rd(w,&m->c_us,sizeof m->c_us);
  rd(w,&m->c_ic,sizeof m->c_ic);
  rd(w,&m->c_is,sizeof m->c_is);
  rd(w,&m->dn,sizeof m->dn);
  rd(w,&m->m0,sizeof m->m0);
  rd(w,&m->ecc,sizeof m->ecc);
  rd(w,&m->sqrta,sizeof m->sqrta);
  rd(w,&m->omega0,sizeof m->omega0);
  rd(w,&m->omegadot,sizeof m->omegadot);
  rd(w,&m->w,sizeof m->w);
  rd(w,&m->inc,sizeof m->inc);
  rd(w,&m->inc_dot,sizeof m->inc_dot);
  rd(w,&m->af0,sizeof m->af0);
  rd(w,&m->af1,sizeof m->af1);
  rd(w,&m->af2,sizeof m->af2);
  r_gps_time_sec(w,&m->toc);
  rd(w,&m->iode,sizeof m->iode);
  rd(w,&m->iodc,sizeof m->iodc);
}
static void rm_ephemeris_qzss(R*w,sbp_msg_ephemeris_qzss_t*m){
  r_ephemeris_common_content(w,&m->common);
  rd(w,&m->tgd,sizeof m->tgd);
  rd(w,&m->c_rs,sizeof m->c_rs);
  rd(w,&m->c_rc,sizeof m->c_rc);
  rd(w,&m->c_uc,sizeof m->c_uc);
  rd(w,&m->c_us,sizeof m->c_us);
  rd(w,&m->c_ic,sizeof m->c_ic);
  rd(w,&m->c_is,sizeof m->c_is);
  rd(w,&m->dn,sizeof m->dn);
  rd(w,&m->m0,sizeof m->m0);
  rd(w,&m->ecc,sizeof m->ecc);
  rd(w,&m->sqrta,sizeof m->sqrta);
  rd(w,&m->omega0,sizeof m->omega0);
  rd(w,&m->omegadot,sizeof m->omegadot);
  rd(w,&m->w,sizeof m->w);
  rd(w,&m->inc,sizeof m->inc);
  rd(w,&m->inc_dot,sizeof m->inc_dot);
  rd(w,&m->af0,sizeof m->af0);
  rd(w,&m->af1,sizeof m->af1);
  rd(w,&m->af2,sizeof m->af2);
  r_gps_time_sec(w,&m->toc);
  rd(w,&m->iode,sizeof m->iode);
  rd(w,&m->iodc,sizeof m->iodc);
}
static void rm_ephemeris_bds(R*w,sbp_msg_ephemeris_bds_t*m){
  r_ephemeris_common_content(w,&m->common);
  rd(w,&m->tgd1,sizeof m->tgd1);
  rd(w,&m->tgd2,sizeof m->tgd2);
  rd(w,&m->c_rs,sizeof m->c_rs);
  rd(w,&m->c_rc,sizeof m->c_rc);
  rd(w,&m->c_uc,sizeof m->c_uc);
  rd(w,&m->c_us,sizeof m->c_us);
  rd(w,&m->c_ic,sizeof m->c_ic);
  rd(w,&m->c_is,sizeof m->c_is);
  rd(w,&m->dn,sizeof m->dn);
  rd(w,&m->m0,sizeof m->m0);
  rd(w,&m->ecc,sizeof m->ecc);
  rd(w,&m->sqrta,sizeof m->sqrta);
  rd(w,&m->omega0,sizeof m->omega0);
  rd(w,&m->omegadot,sizeof m->omegadot);
  rd(w,&m->w,sizeof m->w);
  rd(w,&m->inc,sizeof m->inc);
  rd(w,&m->inc_dot,sizeof m->inc_dot);
  rd(w,&m->af0,sizeof m->af0);
  rd(w,&m->af1,sizeof m->af1);
  rd(w,&m->af2,sizeof m->af2);
  r_gps_time_sec(w,&m->toc);
  rd(w,&m->iode,sizeof m->iode);
  rd(w,&m->iodc,sizeof m->iodc);
}
static void rm_ephemeris_gal(R*w,sbp_msg_ephemeris_gal_t*m){
  r_ephemeris_common_content(w,&m->common);
  rd(w,&m->bgd_e1e5a,sizeof m->bgd_e1e5a);
  rd(w,&m->bgd_e1e5b,sizeof m->bgd_e1e5b);
  rd(w,&m->c_rs,sizeof m->c_rs);
  rd(w,&m->c_rc,sizeof m->c_rc);
  rd(w,&m->c_uc,sizeof m->c_uc);
  rd(w,&m->c_us,sizeof m->c_us);
  rd(w,&m->c_ic,sizeof m->c_ic);
  rd(w,&m->c_is,sizeof m->c_is);
  rd(w,&m->dn,sizeof m->dn);
  rd(w,&m->m0,sizeof m->m0);
  rd(w,&m->ecc,sizeof m->ecc);
  rd(w,&m->sqrta,sizeof m->sqrta);
  rd(w,&m->omega0,sizeof m->omega0);
  rd(w,&m->omegadot,sizeof m->omegadot);
  rd(w,&m->w,sizeof m->w);
  rd(w,&m->inc,sizeof m->inc);
  rd(w,&m->inc_dot,sizeof m->inc_dot);
  rd(w,&m->af0,sizeof m->af0);
  rd(w,&m->af1,sizeof m->af1);
  rd(w,&m->af2,sizeof m->af2);
  r_gps_time_sec(w,&m->toc);
  rd(w,&m->iode,sizeof m->iode);
  rd(w,&m->iodc,sizeof m->iodc);
  rd(w,&m->source,sizeof m->source);
}
static void rm_ephemeris_glo(R*w,sbp_msg_ephemeris_glo_t*m){
  r_ephemeris_common_content(w,&m->common);
  rd(w,&m->gamma,sizeof m->gamma);
  rd(w,&m->tau,sizeof m->tau);
  rd(w,&m->d_tau,sizeof m->d_tau);
  for(size_t i=0;i<3;i++){rd(w,&m->pos[i],sizeof m->pos[i]);}
  for(size_t i=0;i<3;i++){rd(w,&m->vel[i],sizeof m->vel[i]);}
  for(size_t i=0;i<3;i++){rd(w,&m->acc[i],sizeof m->acc[i]);}
  rd(w,&m->fcn,sizeof m->fcn);
  rd(w,&m->iod,sizeof m->iod);
}
static void rm_glo_biases(R*w,sbp_msg_glo_biases_t*m){
  rd(w,&m->mask,sizeof m->mask);
  rd(w,&m->l1ca_bias,sizeof m->l1ca_bias);
  rd(w,&m->l1p_bias,sizeof m->l1p_bias);
  rd(w,&m->l2ca_bias,sizeof m->l2ca_bias);
  rd(w,&m->l2p_bias,sizeof m->l2p_bias);
}
static void rm_sv_az_el(R*w,sbp_msg_sv_az_el_t*m){
  {size_t k=(w->len-w->n)/4; if(k>63)k=63; m->n_azel=(uint8_t)k; for(size_t i=0;i<k;i++){r_sv_az_el(w,&m->azel[i]);}}
}
static void rm_measurement_state(R*w,sbp_msg_measurement_state_t*m){
  {size_t k=(w->len-w->n)/3; if(k>85)k=85; m->n_states=(uint8_t)k; for(size_t i=0;i<k;i++){r_measurement_state(w,&m->states[i]);}}
}
static void rm_log(R*w,sbp_msg_log_t*m){
  rd(w,&m->level,sizeof m->level);
  m->text.encoded_len=w->len-w->n; rd(w,m->text.data,m->text.encoded_len); m->text.data[m->text.encoded_len]=0;
}
static void rm_fwd(R*w,sbp_msg_fwd_t*m){
  rd(w,&m->source,sizeof m->source);
  rd(w,&m->protocol,sizeof m->protocol);
  {size_t k=(w->len-w->n)/1; if(k>253)k=253; m->n_fwd_payload=(uint8_t)k; for(size_t i=0;i<k;i++){rd(w,&m->fwd_payload[i],sizeof m->fwd_payload[i]);}}
}
static void rm_gps_time(R*w,sbp_msg_gps_time_t*m){
  rd(w,&m->wn,sizeof m->wn);
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->ns_residual,sizeof m->ns_residual);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_gps_time_gnss(R*w,sbp_msg_gps_time_gnss_t*m){
  rd(w,&m->wn,sizeof m->wn);
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->ns_residual,sizeof m->ns_residual);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_utc_time(R*w,sbp_msg_utc_time_t*m){
  rd(w,&m->flags,sizeof m->flags);
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->year,sizeof m->year);
  rd(w,&m->month,sizeof m->month);
  rd(w,&m->day,sizeof m->day);
  rd(w,&m->hours,sizeof m->hours);
  rd(w,&m->minutes,sizeof m->minutes);
  rd(w,&m->seconds,sizeof m->seconds);
  rd(w,&m->ns,sizeof m->ns);
}
static void rm_utc_time_gnss(R*w,sbp_msg_utc_time_gnss_t*m){
  rd(w,&m->flags,sizeof m->flags);
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->year,sizeof m->year);
  rd(w,&m->month,sizeof m->month);
  rd(w,&m->day,sizeof m->day);
  rd(w,&m->hours,sizeof m->hours);
  rd(w,&m->minutes,sizeof m->minutes);
  rd(w,&m->seconds,sizeof m->seconds);
  rd(w,&m->ns,sizeof m->ns);
}
static void rm_dops(R*w,sbp_msg_dops_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->gdop,sizeof m->gdop);
  rd(w,&m->pdop,sizeof m->pdop);
  rd(w,&m->tdop,sizeof m->tdop);
  rd(w,&m->hdop,sizeof m->hdop);
  rd(w,&m->vdop,sizeof m->vdop);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_pos_llh(R*w,sbp_msg_pos_llh_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->lat,sizeof m->lat);
  rd(w,&m->lon,sizeof m->lon);
  rd(w,&m->height,sizeof m->height);
  rd(w,&m->h_accuracy,sizeof m->h_accuracy);
  rd(w,&m->v_accuracy,sizeof m->v_accuracy);
  rd(w,&m->n_sats,sizeof m->n_sats);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_pos_llh_gnss(R*w,sbp_msg_pos_llh_gnss_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->lat,sizeof m->lat);
  rd(w,&m->lon,sizeof m->lon);
  rd(w,&m->height,sizeof m->height);
  rd(w,&m->h_accuracy,sizeof m->h_accuracy);
  rd(w,&m->v_accuracy,sizeof m->v_accuracy);
  rd(w,&m->n_sats,sizeof m->n_sats);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_pos_llh_cov(R*w,sbp_msg_pos_llh_cov_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->lat,sizeof m->lat);
  rd(w,&m->lon,sizeof m->lon);
  rd(w,&m->height,sizeof m->height);
  rd(w,&m->cov_n_n,sizeof m->cov_n_n);
  rd(w,&m->cov_n_e,sizeof m->cov_n_e);
  rd(w,&m->cov_n_d,sizeof m->cov_n_d);
  rd(w,&m->cov_e_e,sizeof m->cov_e_e);
  rd(w,&m->cov_e_d,sizeof m->cov_e_d);
  rd(w,&m->cov_d_d,sizeof m->cov_d_d);
  rd(w,&m->n_sats,sizeof m->n_sats);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_pos_llh_cov_gnss(R*w,sbp_msg_pos_llh_cov_gnss_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->lat,sizeof m->lat);
  rd(w,&m->lon,sizeof m->lon);
  rd(w,&m->height,sizeof m->height);
  rd(w,&m->cov_n_n,sizeof m->cov_n_n);
  rd(w,&m->cov_n_e,sizeof m->cov_n_e);
  rd(w,&m->cov_n_d,sizeof m->cov_n_d);
  rd(w,&m->cov_e_e,sizeof m->cov_e_e);
  rd(w,&m->cov_e_d,sizeof m->cov_e_d);
  rd(w,&m->cov_d_d,sizeof m->cov_d_d);
  rd(w,&m->n_sats,sizeof m->n_sats);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_vel_ned(R*w,sbp_msg_vel_ned_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->n,sizeof m->n);
  rd(w,&m->e,sizeof m->e);
  rd(w,&m->d,sizeof m->d);
  rd(w,&m->h_accuracy,sizeof m->h_accuracy);
  rd(w,&m->v_accuracy,sizeof m->v_accuracy);
  rd(w,&m->n_sats,sizeof m->n_sats);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_vel_ned_gnss(R*w,sbp_msg_vel_ned_gnss_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->n,sizeof m->n);
  rd(w,&m->e,sizeof m->e);
  rd(w,&m->d,sizeof m->d);
  rd(w,&m->h_accuracy,sizeof m->h_accuracy);
  rd(w,&m->v_accuracy,sizeof m->v_accuracy);
  rd(w,&m->n_sats,sizeof m->n_sats);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_vel_ecef(R*w,sbp_msg_vel_ecef_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->x,sizeof m->x);
  rd(w,&m->y,sizeof m->y);
  rd(w,&m->z,sizeof m->z);
  rd(w,&m->accuracy,sizeof m->accuracy);
  rd(w,&m->n_sats,sizeof m->n_sats);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_baseline_heading(R*w,sbp_msg_baseline_heading_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->heading,sizeof m->heading);
  rd(w,&m->n_sats,sizeof m->n_sats);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_age_corrections(R*w,sbp_msg_age_corrections_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->age,sizeof m->age);
}
static void rm_orient_euler(R*w,sbp_msg_orient_euler_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->roll,sizeof m->roll);
  rd(w,&m->pitch,sizeof m->pitch);
  rd(w,&m->yaw,sizeof m->yaw);
  rd(w,&m->roll_accuracy,sizeof m->roll_accuracy);
  rd(w,&m->pitch_accuracy,sizeof m->pitch_accuracy);
  rd(w,&m->yaw_accuracy,sizeof m->yaw_accuracy);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_angular_rate(R*w,sbp_msg_angular_rate_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->x,sizeof m->x);
  rd(w,&m->y,sizeof m->y);
  rd(w,&m->z,sizeof m->z);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_imu_raw(R*w,sbp_msg_imu_raw_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->tow_f,sizeof m->tow_f);
  rd(w,&m->acc_x,sizeof m->acc_x);
  rd(w,&m->acc_y,sizeof m->acc_y);
  rd(w,&m->acc_z,sizeof m->acc_z);
  rd(w,&m->gyr_x,sizeof m->gyr_x);
  rd(w,&m->gyr_y,sizeof m->gyr_y);
  rd(w,&m->gyr_z,sizeof m->gyr_z);
}
static void rm_imu_aux(R*w,sbp_msg_imu_aux_t*m){
  rd(w,&m->imu_type,sizeof m->imu_type);
  rd(w,&m->temp,sizeof m->temp);
  rd(w,&m->imu_conf,sizeof m->imu_conf);
}
static void rm_odometry(R*w,sbp_msg_odometry_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->velocity,sizeof m->velocity);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_wheeltick(R*w,sbp_msg_wheeltick_t*m){
  rd(w,&m->time,sizeof m->time);
  rd(w,&m->flags,sizeof m->flags);
  rd(w,&m->source,sizeof m->source);
  rd(w,&m->ticks,sizeof m->ticks);
}
static void rm_sbas_raw(R*w,sbp_msg_sbas_raw_t*m){
  r_gnss_signal(w,&m->sid);
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->message_type,sizeof m->message_type);
  for(size_t i=0;i<27;i++){rd(w,&m->data[i],sizeof m->data[i]);}
}
static void rm_soln_meta(R*w,sbp_msg_soln_meta_t*m){
  rd(w,&m->tow,sizeof m->tow);
  rd(w,&m->pdop,sizeof m->pdop);
  rd(w,&m->hdop,sizeof m->hdop);
  rd(w,&m->vdop,sizeof m->vdop);
  rd(w,&m->age_corrections,sizeof m->age_corrections);
  rd(w,&m->age_gnss,sizeof m->age_gnss);
  {size_t k=(w->len-w->n)/2; if(k>119)k=119; m->n_sol_in=(uint8_t)k; for(size_t i=0;i<k;i++){r_solution_input_type(w,&m->sol_in[i]);}}
}
static void rm_group_meta(R*w,sbp_msg_group_meta_t*m){
  rd(w,&m->group_id,sizeof m->group_id);
  rd(w,&m->flags,sizeof m->flags);
  rd(w,&m->n_group_msgs,sizeof m->n_group_msgs);
  if(m->n_group_msgs>126)w->err=1;
  for(size_t i=0;i<m->n_group_msgs && i<126;i++){rd(w,&m->group_msgs[i],sizeof m->group_msgs[i]);}
}
static void rm_gnss_time_offset(R*w,sbp_msg_gnss_time_offset_t*m){
  rd(w,&m->weeks,sizeof m->weeks);
  rd(w,&m->milliseconds,sizeof m->milliseconds);
  rd(w,&m->microseconds,sizeof m->microseconds);
  rd(w,&m->flags,sizeof m->flags);
}
static void rm_ssr_orbit_clock(R*w,sbp_msg_ssr_orbit_clock_t*m){
  r_gps_time_sec(w,&m->time);
  r_gnss_signal(w,&m->sid);
  rd(w,&m->update_interval,sizeof m->update_interval);
  rd(w,&m->iod_ssr,sizeof m->iod_ssr);
  rd(w,&m->iod,sizeof m->iod);
  rd(w,&m->radial,sizeof m->radial);
  rd(w,&m->along,sizeof m->along);
  rd(w,&m->cross,sizeof m->cross);
  rd(w,&m->dot_radial,sizeof m->dot_radial);
  rd(w,&m->dot_along,sizeof m->dot_along);
  rd(w,&m->dot_cross,sizeof m->dot_cross);
  rd(w,&m->c0,sizeof m->c0);
  rd(w,&m->c1,sizeof m->c1);
  rd(w,&m->c2,sizeof m->c2);
}
static void rm_ssr_code_biases(R*w,sbp_msg_ssr_code_biases_t*m){
  r_gps_time_sec(w,&m->time);
  r_gnss_signal(w,&m->sid);
  rd(w,&m->update_interval,sizeof m->update_interval);
  rd(w,&m->iod_ssr,sizeof m->iod_ssr);
  {size_t k=(w->len-w->n)/3; if(k>81)k=81; m->n_biases=(uint8_t)k; for(size_t i=0;i<k;i++){r_code_biases_content(w,&m->biases[i]);}}
}
static void rm_ssr_phase_biases(R*w,sbp_msg_ssr_phase_biases_t*m){
  r_gps_time_sec(w,&m->time);
  r_gnss_signal(w,&m->sid);
  rd(w,&m->update_interval,sizeof m->update_interval);
  rd(w,&m->iod_ssr,sizeof m->iod_ssr);
  rd(w,&m->dispersive_bias,sizeof m->dispersive_bias);
  rd(w,&m->mw_consistency,sizeof m->mw_consistency);
  rd(w,&m->yaw,sizeof m->yaw);
  rd(w,&m->yaw_rate,sizeof m->yaw_rate);
  {size_t k=(w->len-w->n)/8; if(k>30)k=30; m->n_biases=(uint8_t)k; for(size_t i=0;i<k;i++){r_phase_biases_content(w,&m->biases[i]);}}
}
static void dm_obs(D*w,const sbp_msg_obs_t*m){
  dp(w,"header=");
  d_observation_header(w,&m->header);
  dp(w,"obs=");
  for(size_t i=0;i<m->n_obs && i<14;i++){d_packed_obs_content(w,&m->obs[i]);}
}
static void dm_base_pos_ecef(D*w,const sbp_msg_base_pos_ecef_t*m){
  dp(w,"x=");
  dp(w,"%.17g ",m->x);
  dp(w,"y=");
  dp(w,"%.17g ",m->y);
  dp(w,"z=");
  dp(w,"%.17g ",m->z);
}
static void dm_ephemeris_gps(D*w,const sbp_msg_ephemeris_gps_t*m){
  dp(w,"common=");
  d_ephemeris_common_content(w,&m->common);
  dp(w,"tgd=");
  dp(w,"%.9g ",m->tgd);
  dp(w,"c_rs=");
  dp(w,"%.9g ",m->c_rs);
  dp(w,"c_rc=");
  dp(w,"%.9g ",m->c_rc);
  dp(w,"c_uc=");
  dp(w,"%.9g ",m->c_uc);
  dp(w,"c_us=");
  dp(w,"%.9g ",m->c_us);
  dp(w,"c_ic=");
  dp(w,"%.9g ",m->c_ic);
  dp(w,"c_is=");
  dp(w,"%.9g ",m->c_is);
  dp(w,"dn=");
  dp(w,"%.17g ",m->dn);
  dp(w,"m0=");
  dp(w,"%.17g ",m->m0);
  dp(w,"ecc=");
  dp(w,"%.17g ",m->ecc);
  dp(w,"sqrta=");
  dp(w,"%.17g ",m->sqrta);
  dp(w,"omega0=");
  dp(w,"%.17g ",m->omega0);
  dp(w,"omegadot=");
  dp(w,"%.17g ",m->omegadot);
  dp(w,"w=");
  dp(w,"%.17g ",m->w);
  dp(w,"inc=");
  dp(w,"%.17g ",m->inc);
  dp(w,"inc_dot=");
  dp(w,"%.17g ",m->inc_dot);
  dp(w,"af0=");
  dp(w,"%.9g ",m->af0);
  dp(w,"af1=");
  dp(w,"%.9g ",m->af1);
  dp(w,"af2=");
  dp(w,"%.9g ",m->af2);
  dp(w,"toc=");
  d_gps_time_sec(w,&m->toc);
  dp(w,"iode=");
  dp(w,"%u ",m->iode);
  dp(w,"iodc=");
  dp(w,"%u ",m->iodc);
}
static void dm_ephemeris_qzss(D*w,const sbp_msg_ephemeris_qzss_t*m){
  dp(w,"common=");
  d_ephemeris_common_content(w,&m->common);
  dp(w,"tgd=");
  dp(w,"%.9g ",m->tgd);
  dp(w,"c_rs=");
  dp(w,"%.9g ",m->c_rs);
  dp(w,"c_rc=");
  dp(w,"%.9g ",m->c_rc);
  dp(w,"c_uc=");
  dp(w,"%.9g ",m->c_uc);
  dp(w,"c_us=");
  dp(w,"%.9g ",m->c_us);
  dp(w,"c_ic=");
  dp(w,"%.9g ",m->c_ic);
  dp(w,"c_is=");
  dp(w,"%.9g ",m->c_is);
  dp(w,"dn=");
  dp(w,"%.17g ",m->dn);
  dp(w,"m0=");
  dp(w,"%.17g ",m->m0);
  dp(w,"ecc=");
  dp(w,"%.17g ",m->ecc);
  dp(w,"sqrta=");
  dp(w,"%.17g ",m->sqrta);
  dp(w,"omega0=");
  dp(w,"%.17g ",m->omega0);
  dp(w,"omegadot=");
  dp(w,"%.17g ",m->omegadot);
  dp(w,"w=");
  dp(w,"%.17g ",m->w);
  dp(w,"inc=");
  dp(w,"%.17g ",m->inc);
  dp(w,"inc_dot=");
  dp(w,"%.17g ",m->inc_dot);
  dp(w,"af0=");
  dp(w,"%.9g ",m->af0);
  dp(w,"af1=");
  dp(w,"%.9g ",m->af1);
  dp(w,"af2=");
  dp(w,"%.9g ",m->af2);
  dp(w,"toc=");
  d_gps_time_sec(w,&m->toc);
  dp(w,"iode=");
  dp(w,"%u ",m->iode);
  dp(w,"iodc=");
  dp(w,"%u ",m->iodc);
}
static void dm_ephemeris_bds(D*w,const sbp_msg_ephemeris_bds_t*m){
  dp(w,"common=");
  d_ephemeris_common_content(w,&m->common);
  dp(w,"tgd1=");
  dp(w,"%.9g ",m->tgd1);
  dp(w,"tgd2=");
  dp(w,"%.9g ",m->tgd2);
  dp(w,"c_rs=");
  dp(w,"%.9g ",m->c_rs);
  dp(w,"c_rc=");
  dp(w,"%.9g ",m->c_rc);
  dp(w,"c_uc=");
  dp(w,"%.9g ",m->c_uc);
  dp(w,"c_us=");
  dp(w,"%.9g ",m->c_us);
  dp(w,"c_ic=");
  dp(w,"%.9g ",m->c_ic);
  dp(w,"c_is=");
  dp(w,"%.9g ",m->c_is);
  dp(w,"dn=");
  dp(w,"%.17g ",m->dn);
  dp(w,"m0=");
  dp(w,"%.17g ",m->m0);
  dp(w,"ecc=");
  dp(w,"%.17g ",m->ecc);
  dp(w,"sqrta=");
  dp(w,"%.17g ",m->sqrta);
  dp(w,"omega0=");
  dp(w,"%.17g ",m->omega0);
  dp(w,"omegadot=");
  dp(w,"%.17g ",m->omegadot);
  dp(w,"w=");
  dp(w,"%.17g ",m->w);
  dp(w,"inc=");
  dp(w,"%.17g ",m->inc);
  dp(w,"inc_dot=");
  dp(w,"%.17g ",m->inc_dot);
  dp(w,"af0=");
  dp(w,"%.17g ",m->af0);
  dp(w,"af1=");
  dp(w,"%.9g ",m->af1);
  dp(w,"af2=");
  dp(w,"%.9g ",m->af2);
  dp(w,"toc=");
  d_gps_time_sec(w,&m->toc);
  dp(w,"iode=");
  dp(w,"%u ",m->iode);
  dp(w,"iodc=");
  dp(w,"%u ",m->iodc);
}
static void dm_ephemeris_gal(D*w,const sbp_msg_ephemeris_gal_t*m){
  dp(w,"common=");
  d_ephemeris_common_content(w,&m->common);
  dp(w,"bgd_e1e5a=");
  dp(w,"%.9g ",m->bgd_e1e5a);
  dp(w,"bgd_e1e5b=");
  dp(w,"%.9g ",m->bgd_e1e5b);
  dp(w,"c_rs=");
  dp(w,"%.9g ",m->c_rs);
  dp(w,"c_rc=");
  dp(w,"%.9g ",m->c_rc);
  dp(w,"c_uc=");
  dp(w,"%.9g ",m->c_uc);
  dp(w,"c_us=");
  dp(w,"%.9g ",m->c_us);
  dp(w,"c_ic=");
  dp(w,"%.9g ",m->c_ic);
  dp(w,"c_is=");
  dp(w,"%.9g ",m->c_is);
  dp(w,"dn=");
  dp(w,"%.17g ",m->dn);
  dp(w,"m0=");
  dp(w,"%.17g ",m->m0);
  dp(w,"ecc=");
  dp(w,"%.17g ",m->ecc);
  dp(w,"sqrta=");
  dp(w,"%.17g ",m->sqrta);
  dp(w,"omega0=");
  dp(w,"%.17g ",m->omega0);
  dp(w,"omegadot=");
  dp(w,"%.17g ",m->omegadot);
  dp(w,"w=");
  dp(w,"%.17g ",m->w);
  dp(w,"inc=");
  dp(w,"%.17g ",m->inc);
  dp(w,"inc_dot=");
  dp(w,"%.17g ",m->inc_dot);
  dp(w,"af0=");
  dp(w,"%.17g ",m->af0);
  dp(w,"af1=");
  dp(w,"%.17g ",m->af1);
  dp(w,"af2=");
  dp(w,"%.9g ",m->af2);
  dp(w,"toc=");
  d_gps_time_sec(w,&m->toc);
  dp(w,"iode=");
  dp(w,"%u ",m->iode);
  dp(w,"iodc=");
  dp(w,"%u ",m->iodc);
  dp(w,"source=");
  dp(w,"%u ",m->source);
}
static void dm_ephemeris_glo(D*w,const sbp_msg_ephemeris_glo_t*m){
  dp(w,"common=");
  d_ephemeris_common_content(w,&m->common);
  dp(w,"gamma=");
  dp(w,"%.9g ",m->gamma);
  dp(w,"tau=");
  dp(w,"%.9g ",m->tau);
  dp(w,"d_tau=");
  dp(w,"%.9g ",m->d_tau);
  dp(w,"pos=");
  for(size_t i=0;i<3;i++){dp(w,"%.17g ",m->pos[i]);}
  dp(w,"vel=");
  for(size_t i=0;i<3;i++){dp(w,"%.17g ",m->vel[i]);}
  dp(w,"acc=");
  for(size_t i=0;i<3;i++){dp(w,"%.9g ",m->acc[i]);}
  dp(w,"fcn=");
  dp(w,"%u ",m->fcn);
  dp(w,"iod=");
  dp(w,"%u ",m->iod);
}
static void dm_glo_biases(D*w,const sbp_msg_glo_biases_t*m){
  dp(w,"mask=");
  dp(w,"%u ",m->mask);
  dp(w,"l1ca_bias=");
  dp(w,"%d ",m->l1ca_bias);
  dp(w,"l1p_bias=");
  dp(w,"%d ",m->l1p_bias);
  dp(w,"l2ca_bias=");
  dp(w,"%d ",m->l2ca_bias);
  dp(w,"l2p_bias=");
  dp(w,"%d ",m->l2p_bias);
}
static void dm_sv_az_el(D*w,const sbp_msg_sv_az_el_t*m){
  dp(w,"azel=");
  for(size_t i=0;i<m->n_azel && i<63;i++){d_sv_az_el(w,&m->azel[i]);}
}
static void dm_measurement_state(D*w,const sbp_msg_measurement_state_t*m){
  dp(w,"states=");
  for(size_t i=0;i<m->n_states && i<85;i++){d_measurement_state(w,&m->states[i]);}
}
static void dm_log(D*w,const sbp_msg_log_t*m){
  dp(w,"level=");
  dp(w,"%u ",m->level);
  dp(w,"text=");
  dp(w,"[%zu]\"%.*s\"",m->text.encoded_len,(int)m->text.encoded_len,m->text.data);
}
static void dm_fwd(D*w,const sbp_msg_fwd_t*m){
  dp(w,"source=");
  dp(w,"%u ",m->source);
  dp(w,"protocol=");
  dp(w,"%u ",m->protocol);
  dp(w,"fwd_payload=");
  for(size_t i=0;i<m->n_fwd_payload && i<253;i++){dp(w,"%u ",m->fwd_payload[i]);}
}
static void dm_gps_time(D*w,const sbp_msg_gps_time_t*m){
  dp(w,"wn=");
  dp(w,"%u ",m->wn);
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"ns_residual=");
  dp(w,"%d ",m->ns_residual);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_gps_time_gnss(D*w,const sbp_msg_gps_time_gnss_t*m){
  dp(w,"wn=");
  dp(w,"%u ",m->wn);
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"ns_residual=");
  dp(w,"%d ",m->ns_residual);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_utc_time(D*w,const sbp_msg_utc_time_t*m){
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"year=");
  dp(w,"%u ",m->year);
  dp(w,"month=");
  dp(w,"%u ",m->month);
  dp(w,"day=");
  dp(w,"%u ",m->day);
  dp(w,"hours=");
  dp(w,"%u ",m->hours);
  dp(w,"minutes=");
  dp(w,"%u ",m->minutes);
  dp(w,"seconds=");
  dp(w,"%u ",m->seconds);
  dp(w,"ns=");
  dp(w,"%u ",m->ns);
}
static void dm_utc_time_gnss(D*w,const sbp_msg_utc_time_gnss_t*m){
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"year=");
  dp(w,"%u ",m->year);
  dp(w,"month=");
  dp(w,"%u ",m->month);
  dp(w,"day=");
  dp(w,"%u ",m->day);
  dp(w,"hours=");
  dp(w,"%u ",m->hours);
  dp(w,"minutes=");
  dp(w,"%u ",m->minutes);
  dp(w,"seconds=");
  dp(w,"%u ",m->seconds);
  dp(w,"ns=");
  dp(w,"%u ",m->ns);
}
static void dm_dops(D*w,const sbp_msg_dops_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"gdop=");
  dp(w,"%u ",m->gdop);
  dp(w,"pdop=");
  dp(w,"%u ",m->pdop);
  dp(w,"tdop=");
  dp(w,"%u ",m->tdop);
  dp(w,"hdop=");
  dp(w,"%u ",m->hdop);
  dp(w,"vdop=");
  dp(w,"%u ",m->vdop);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_pos_llh(D*w,const sbp_msg_pos_llh_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"lat=");
  dp(w,"%.17g ",m->lat);
  dp(w,"lon=");
  dp(w,"%.17g ",m->lon);
  dp(w,"height=");
  dp(w,"%.17g ",m->height);
  dp(w,"h_accuracy=");
  dp(w,"%u ",m->h_accuracy);
  dp(w,"v_accuracy=");
  dp(w,"%u ",m->v_accuracy);
  dp(w,"n_sats=");
  dp(w,"%u ",m->n_sats);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_pos_llh_gnss(D*w,const sbp_msg_pos_llh_gnss_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"lat=");
  dp(w,"%.17g ",m->lat);
  dp(w,"lon=");
  dp(w,"%.17g ",m->lon);
  dp(w,"height=");
  dp(w,"%.17g ",m->height);
  dp(w,"h_accuracy=");
  dp(w,"%u ",m->h_accuracy);
  dp(w,"v_accuracy=");
  dp(w,"%u ",m->v_accuracy);
  dp(w,"n_sats=");
  dp(w,"%u ",m->n_sats);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_pos_llh_cov(D*w,const sbp_msg_pos_llh_cov_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"lat=");
  dp(w,"%.17g ",m->lat);
  dp(w,"lon=");
  dp(w,"%.17g ",m->lon);
  dp(w,"height=");
  dp(w,"%.17g ",m->height);
  dp(w,"cov_n_n=");
  dp(w,"%.9g ",m->cov_n_n);
  dp(w,"cov_n_e=");
  dp(w,"%.9g ",m->cov_n_e);
  dp(w,"cov_n_d=");
  dp(w,"%.9g ",m->cov_n_d);
  dp(w,"cov_e_e=");
  dp(w,"%.9g ",m->cov_e_e);
  dp(w,"cov_e_d=");
  dp(w,"%.9g ",m->cov_e_d);
  dp(w,"cov_d_d=");
  dp(w,"%.9g ",m->cov_d_d);
  dp(w,"n_sats=");
  dp(w,"%u ",m->n_sats);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_pos_llh_cov_gnss(D*w,const sbp_msg_pos_llh_cov_gnss_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"lat=");
  dp(w,"%.17g ",m->lat);
  dp(w,"lon=");
  dp(w,"%.17g ",m->lon);
  dp(w,"height=");
  dp(w,"%.17g ",m->height);
  dp(w,"cov_n_n=");
  dp(w,"%.9g ",m->cov_n_n);
  dp(w,"cov_n_e=");
  dp(w,"%.9g ",m->cov_n_e);
  dp(w,"cov_n_d=");
  dp(w,"%.9g ",m->cov_n_d);
  dp(w,"cov_e_e=");
  dp(w,"%.9g ",m->cov_e_e);
  dp(w,"cov_e_d=");
  dp(w,"%.9g ",m->cov_e_d);
  dp(w,"cov_d_d=");
  dp(w,"%.9g ",m->cov_d_d);
  dp(w,"n_sats=");
  dp(w,"%u ",m->n_sats);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_vel_ned(D*w,const sbp_msg_vel_ned_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"n=");
  dp(w,"%d ",m->n);
  dp(w,"e=");
  dp(w,"%d ",m->e);
  dp(w,"d=");
  dp(w,"%d ",m->d);
  dp(w,"h_accuracy=");
  dp(w,"%u ",m->h_accuracy);
  dp(w,"v_accuracy=");
  dp(w,"%u ",m->v_accuracy);
  dp(w,"n_sats=");
  dp(w,"%u ",m->n_sats);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_vel_ned_gnss(D*w,const sbp_msg_vel_ned_gnss_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"n=");
  dp(w,"%d ",m->n);
  dp(w,"e=");
  dp(w,"%d ",m->e);
  dp(w,"d=");
  dp(w,"%d ",m->d);
  dp(w,"h_accuracy=");
  dp(w,"%u ",m->h_accuracy);
  dp(w,"v_accuracy=");
  dp(w,"%u ",m->v_accuracy);
  dp(w,"n_sats=");
  dp(w,"%u ",m->n_sats);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_vel_ecef(D*w,const sbp_msg_vel_ecef_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"x=");
  dp(w,"%d ",m->x);
  dp(w,"y=");
  dp(w,"%d ",m->y);
  dp(w,"z=");
  dp(w,"%d ",m->z);
  dp(w,"accuracy=");
  dp(w,"%u ",m->accuracy);
  dp(w,"n_sats=");
  dp(w,"%u ",m->n_sats);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_baseline_heading(D*w,const sbp_msg_baseline_heading_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"heading=");
  dp(w,"%u ",m->heading);
  dp(w,"n_sats=");
  dp(w,"%u ",m->n_sats);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_age_corrections(D*w,const sbp_msg_age_corrections_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"age=");
  dp(w,"%u ",m->age);
}
static void dm_orient_euler(D*w,const sbp_msg_orient_euler_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"roll=");
  dp(w,"%d ",m->roll);
  dp(w,"pitch=");
  dp(w,"%d ",m->pitch);
  dp(w,"yaw=");
  dp(w,"%d ",m->yaw);
  dp(w,"roll_accuracy=");
  dp(w,"%.9g ",m->roll_accuracy);
  dp(w,"pitch_accuracy=");
  dp(w,"%.9g ",m->pitch_accuracy);
  dp(w,"yaw_accuracy=");
  dp(w,"%.9g ",m->yaw_accuracy);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_angular_rate(D*w,const sbp_msg_angular_rate_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"x=");
  dp(w,"%d ",m->x);
  dp(w,"y=");
  dp(w,"%d ",m->y);
  dp(w,"z=");
  dp(w,"%d ",m->z);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_imu_raw(D*w,const sbp_msg_imu_raw_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"tow_f=");
  dp(w,"%u ",m->tow_f);
  dp(w,"acc_x=");
  dp(w,"%d ",m->acc_x);
  dp(w,"acc_y=");
  dp(w,"%d ",m->acc_y);
  dp(w,"acc_z=");
  dp(w,"%d ",m->acc_z);
  dp(w,"gyr_x=");
  dp(w,"%d ",m->gyr_x);
  dp(w,"gyr_y=");
  dp(w,"%d ",m->gyr_y);
  dp(w,"gyr_z=");
  dp(w,"%d ",m->gyr_z);
}
static void dm_imu_aux(D*w,const sbp_msg_imu_aux_t*m){
  dp(w,"imu_type=");
  dp(w,"%u ",m->imu_type);
  dp(w,"temp=");
  dp(w,"%d ",m->temp);
  dp(w,"imu_conf=");
  dp(w,"%u ",m->imu_conf);
}
static void dm_odometry(D*w,const sbp_msg_odometry_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"velocity=");
  dp(w,"%d ",m->velocity);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_wheeltick(D*w,const sbp_msg_wheeltick_t*m){
  dp(w,"time=");
  dp(w,"%llu ",(unsigned long long)m->time);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
  dp(w,"source=");
  dp(w,"%u ",m->source);
  dp(w,"ticks=");
  dp(w,"%d ",m->ticks);
}
static void dm_sbas_raw(D*w,const sbp_msg_sbas_raw_t*m){
  dp(w,"sid=");
  d_gnss_signal(w,&m->sid);
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"message_type=");
  dp(w,"%u ",m->message_type);
  dp(w,"data=");
  for(size_t i=0;i<27;i++){dp(w,"%u ",m->data[i]);}
}
static void dm_soln_meta(D*w,const sbp_msg_soln_meta_t*m){
  dp(w,"tow=");
  dp(w,"%u ",m->tow);
  dp(w,"pdop=");
  dp(w,"%u ",m->pdop);
  dp(w,"hdop=");
  dp(w,"%u ",m->hdop);
  dp(w,"vdop=");
  dp(w,"%u ",m->vdop);
  dp(w,"age_corrections=");
  dp(w,"%u ",m->age_corrections);
  dp(w,"age_gnss=");
  dp(w,"%u ",m->age_gnss);
  dp(w,"sol_in=");
  for(size_t i=0;i<m->n_sol_in && i<119;i++){d_solution_input_type(w,&m->sol_in[i]);}
}
static void dm_group_meta(D*w,const sbp_msg_group_meta_t*m){
  dp(w,"group_id=");
  dp(w,"%u ",m->group_id);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
  dp(w,"n_group_msgs=");
  dp(w,"%u ",m->n_group_msgs);
  dp(w,"group_msgs=");
  for(size_t i=0;i<m->n_group_msgs && i<126;i++){dp(w,"%u ",m->group_msgs[i]);}
}
static void dm_gnss_time_offset(D*w,const sbp_msg_gnss_time_offset_t*m){
  dp(w,"weeks=");
  dp(w,"%d ",m->weeks);
  dp(w,"milliseconds=");
  dp(w,"%d ",m->milliseconds);
  dp(w,"microseconds=");
  dp(w,"%d ",m->microseconds);
  dp(w,"flags=");
  dp(w,"%u ",m->flags);
}
static void dm_ssr_orbit_clock(D*w,const sbp_msg_ssr_orbit_clock_t*m){
  dp(w,"time=");
  d_gps_time_sec(w,&m->time);
  dp(w,"sid=");
  d_gnss_signal(w,&m->sid);
  dp(w,"update_interval=");
  dp(w,"%u ",m->update_interval);
  dp(w,"iod_ssr=");
  dp(w,"%u ",m->iod_ssr);
  dp(w,"iod=");
  dp(w,"%u ",m->iod);
  dp(w,"radial=");
  dp(w,"%d ",m->radial);
  dp(w,"along=");
  dp(w,"%d ",m->along);
  dp(w,"cross=");
  dp(w,"%d ",m->cross);
  dp(w,"dot_radial=");
  dp(w,"%d ",m->dot_radial);
  dp(w,"dot_along=");
  dp(w,"%d ",m->dot_along);
  dp(w,"dot_cross=");
  dp(w,"%d ",m->dot_cross);
  dp(w,"c0=");
  dp(w,"%d ",m->c0);
  dp(w,"c1=");
  dp(w,"%d ",m->c1);
  dp(w,"c2=");
  dp(w,"%d ",m->c2);
}
static void dm_ssr_code_biases(D*w,const sbp_msg_ssr_code_biases_t*m){
  dp(w,"time=");
  d_gps_time_sec(w,&m->time);
  dp(w,"sid=");
  d_gnss_signal(w,&m->sid);
  dp(w,"update_interval=");
  dp(w,"%u ",m->update_interval);
  dp(w,"iod_ssr=");
  dp(w,"%u ",m->iod_ssr);
  dp(w,"biases=");
  for(size_t i=0;i<m->n_biases && i<81;i++){d_code_biases_content(w,&m->biases[i]);}
}
static void dm_ssr_phase_biases(D*w,const sbp_msg_ssr_phase_biases_t*m){
  dp(w,"time=");
  d_gps_time_sec(w,&m->time);
  dp(w,"sid=");
  d_gnss_signal(w,&m->sid);
  dp(w,"update_interval=");
  dp(w,"%u ",m->update_interval);
  dp(w,"iod_ssr=");
  dp(w,"%u ",m->iod_ssr);
  dp(w,"dispersive_bias=");
  dp(w,"%u ",m->dispersive_bias);
  dp(w,"mw_consistency=");
  dp(w,"%u ",m->mw_consistency);
  dp(w,"yaw=");
  dp(w,"%u ",m->yaw);
  dp(w,"yaw_rate=");
  dp(w,"%d ",m->yaw_rate);
  dp(w,"biases=");
  for(size_t i=0;i<m->n_biases && i<30;i++){d_phase_biases_content(w,&m->biases[i]);}
}
s8 sbp_message_encode(uint8_t *buf, uint8_t len, uint8_t *n_written, sbp_msg_type_t t, const sbp_msg_t *msg){ W w={buf,len,0,0}; switch((int)t){
case 0x004A: wm_obs(&w,&msg->obs);break;
case 0x0048: wm_base_pos_ecef(&w,&msg->base_pos_ecef);break;
case 0x008A: wm_ephemeris_gps(&w,&msg->ephemeris_gps);break;
case 0x008E: wm_ephemeris_qzss(&w,&msg->ephemeris_qzss);break;
case 0x0089: wm_ephemeris_bds(&w,&msg->ephemeris_bds);break;
case 0x008D: wm_ephemeris_gal(&w,&msg->ephemeris_gal);break;
case 0x008B: wm_ephemeris_glo(&w,&msg->ephemeris_glo);break;
case 0x0075: wm_glo_biases(&w,&msg->glo_biases);break;
case 0x0097: wm_sv_az_el(&w,&msg->sv_az_el);break;
case 0x0061: wm_measurement_state(&w,&msg->measurement_state);break;
case 0x0401: wm_log(&w,&msg->log);break;
case 0x0402: wm_fwd(&w,&msg->fwd);break;
case 0x0102: wm_gps_time(&w,&msg->gps_time);break;
case 0x0104: wm_gps_time_gnss(&w,&msg->gps_time_gnss);break;
case 0x0103: wm_utc_time(&w,&msg->utc_time);break;
case 0x0105: wm_utc_time_gnss(&w,&msg->utc_time_gnss);break;
case 0x0208: wm_dops(&w,&msg->dops);break;
case 0x020A: wm_pos_llh(&w,&msg->pos_llh);break;
case 0x022A: wm_pos_llh_gnss(&w,&msg->pos_llh_gnss);break;
case 0x0211: wm_pos_llh_cov(&w,&msg->pos_llh_cov);break;
case 0x0231: wm_pos_llh_cov_gnss(&w,&msg->pos_llh_cov_gnss);break;
case 0x020E: wm_vel_ned(&w,&msg->vel_ned);break;
case 0x022E: wm_vel_ned_gnss(&w,&msg->vel_ned_gnss);break;
case 0x020D: wm_vel_ecef(&w,&msg->vel_ecef);break;
case 0x020F: wm_baseline_heading(&w,&msg->baseline_heading);break;
case 0x0210: wm_age_corrections(&w,&msg->age_corrections);break;
case 0x0221: wm_orient_euler(&w,&msg->orient_euler);break;
case 0x0222: wm_angular_rate(&w,&msg->angular_rate);break;
case 0x0900: wm_imu_raw(&w,&msg->imu_raw);break;
case 0x0901: wm_imu_aux(&w,&msg->imu_aux);break;
case 0x0903: wm_odometry(&w,&msg->odometry);break;
case 0x0904: wm_wheeltick(&w,&msg->wheeltick);break;
case 0x7777: wm_sbas_raw(&w,&msg->sbas_raw);break;
case 0xFF0E: wm_soln_meta(&w,&msg->soln_meta);break;
case 0xFF0A: wm_group_meta(&w,&msg->group_meta);break;
case 0xFF07: wm_gnss_time_offset(&w,&msg->gnss_time_offset);break;
case 0x05DD: wm_ssr_orbit_clock(&w,&msg->ssr_orbit_clock);break;
case 0x05E1: wm_ssr_code_biases(&w,&msg->ssr_code_biases);break;
case 0x05E6: wm_ssr_phase_biases(&w,&msg->ssr_phase_biases);break;
default: return SBP_ENCODE_ERROR;} if(w.err) return SBP_ENCODE_ERROR; if(n_written)*n_written=(uint8_t)w.n; return SBP_OK;}
s8 sbp_message_decode(const uint8_t *buf, uint8_t len, uint8_t *n_read, sbp_msg_type_t t, sbp_msg_t *msg){ R w={buf,len,0,0}; switch((int)t){
case 0x004A: rm_obs(&w,&msg->obs);break;
case 0x0048: rm_base_pos_ecef(&w,&msg->base_pos_ecef);break;
case 0x008A: rm_ephemeris_gps(&w,&msg->ephemeris_gps);break;
case 0x008E: rm_ephemeris_qzss(&w,&msg->ephemeris_qzss);break;
case 0x0089: rm_ephemeris_bds(&w,&msg->ephemeris_bds);break;
case 0x008D: rm_ephemeris_gal(&w,&msg->ephemeris_gal);break;
case 0x008B: rm_ephemeris_glo(&w,&msg->ephemeris_glo);break;
case 0x0075: rm_glo_biases(&w,&msg->glo_biases);break;
case 0x0097: rm_sv_az_el(&w,&msg->sv_az_el);break;
case 0x0061: rm_measurement_state(&w,&msg->measurement_state);break;
case 0x0401: rm_log(&w,&msg->log);break;
case 0x0402: rm_fwd(&w,&msg->fwd);break;
case 0x0102: rm_gps_time(&w,&msg->gps_time);break;
case 0x0104: rm_gps_time_gnss(&w,&msg->gps_time_gnss);break;
case 0x0103: rm_utc_time(&w,&msg->utc_time);break;
case 0x0105: rm_utc_time_gnss(&w,&msg->utc_time_gnss);break;
case 0x0208: rm_dops(&w,&msg->dops);break;
case 0x020A: rm_pos_llh(&w,&msg->pos_llh);break;
case 0x022A: rm_pos_llh_gnss(&w,&msg->pos_llh_gnss);break;
case 0x0211: rm_pos_llh_cov(&w,&msg->pos_llh_cov);break;
case 0x0231: rm_pos_llh_cov_gnss(&w,&msg->pos_llh_cov_gnss);break;
case 0x020E: rm_vel_ned(&w,&msg->vel_ned);break;
case 0x022E: rm_vel_ned_gnss(&w,&msg->vel_ned_gnss);break;
case 0x020D: rm_vel_ecef(&w,&msg->vel_ecef);break;
case 0x020F: rm_baseline_heading(&w,&msg->baseline_heading);break;
case 0x0210: rm_age_corrections(&w,&msg->age_corrections);break;
case 0x0221: rm_orient_euler(&w,&msg->orient_euler);break;
case 0x0222: rm_angular_rate(&w,&msg->angular_rate);break;
case 0x0900: rm_imu_raw(&w,&msg->imu_raw);break;
case 0x0901: rm_imu_aux(&w,&msg->imu_aux);break;
case 0x0903: rm_odometry(&w,&msg->odometry);break;
case 0x0904: rm_wheeltick(&w,&msg->wheeltick);break;
case 0x7777: rm_sbas_raw(&w,&msg->sbas_raw);break;
case 0xFF0E: rm_soln_meta(&w,&msg->soln_meta);break;
case 0xFF0A: rm_group_meta(&w,&msg->group_meta);break;
case 0xFF07: rm_gnss_time_offset(&w,&msg->gnss_time_offset);break;
case 0x05DD: rm_ssr_orbit_clock(&w,&msg->ssr_orbit_clock);break;
case 0x05E1: rm_ssr_code_biases(&w,&msg->ssr_code_biases);break;
case 0x05E6: rm_ssr_phase_biases(&w,&msg->ssr_phase_biases);break;
default: return SBP_DECODE_ERROR;} if(w.err) return SBP_DECODE_ERROR; if(n_read)*n_read=(uint8_t)w.n; return SBP_OK;}
size_t shim_sbp_dump(char *buf,size_t cap,int t,const sbp_msg_t*msg){ D w={buf,cap,0}; switch(t){
case 0x004A: dp(&w,"OBS: ");dm_obs(&w,&msg->obs);break;
case 0x0048: dp(&w,"BASE_POS_ECEF: ");dm_base_pos_ecef(&w,&msg->base_pos_ecef);break;
case 0x008A: dp(&w,"EPHEMERIS_GPS: ");dm_ephemeris_gps(&w,&msg->ephemeris_gps);break;
case 0x008E: dp(&w,"EPHEMERIS_QZSS: ");dm_ephemeris_qzss(&w,&msg->ephemeris_qzss);break;
case 0x0089: dp(&w,"EPHEMERIS_BDS: ");dm_ephemeris_bds(&w,&msg->ephemeris_bds);break;
case 0x008D: dp(&w,"EPHEMERIS_GAL: ");dm_ephemeris_gal(&w,&msg->ephemeris_gal);break;
case 0x008B: dp(&w,"EPHEMERIS_GLO: ");dm_ephemeris_glo(&w,&msg->ephemeris_glo);break;
case 0x0075: dp(&w,"GLO_BIASES: ");dm_glo_biases(&w,&msg->glo_biases);break;
case 0x0097: dp(&w,"SV_AZ_EL: ");dm_sv_az_el(&w,&msg->sv_az_el);break;
case 0x0061: dp(&w,"MEASUREMENT_STATE: ");dm_measurement_state(&w,&msg->measurement_state);break;
case 0x0401: dp(&w,"LOG: ");dm_log(&w,&msg->log);break;
case 0x0402: dp(&w,"FWD: ");dm_fwd(&w,&msg->fwd);break;
case 0x0102: dp(&w,"GPS_TIME: ");dm_gps_time(&w,&msg->gps_time);break;
case 0x0104: dp(&w,"GPS_TIME_GNSS: ");dm_gps_time_gnss(&w,&msg->gps_time_gnss);break;
case 0x0103: dp(&w,"UTC_TIME: ");dm_utc_time(&w,&msg->utc_time);break;
case 0x0105: dp(&w,"UTC_TIME_GNSS: ");dm_utc_time_gnss(&w,&msg->utc_time_gnss);break;
case 0x0208: dp(&w,"DOPS: ");dm_dops(&w,&msg->dops);break;
case 0x020A: dp(&w,"POS_LLH: ");dm_pos_llh(&w,&msg->pos_llh);break;
case 0x022A: dp(&w,"POS_LLH_GNSS: ");dm_pos_llh_gnss(&w,&msg->pos_llh_gnss);break;
case 0x0211: dp(&w,"POS_LLH_COV: ");dm_pos_llh_cov(&w,&msg->pos_llh_cov);break;
case 0x0231: dp(&w,"POS_LLH_COV_GNSS: ");dm_pos_llh_cov_gnss(&w,&msg->pos_llh_cov_gnss);break;
case 0x020E: dp(&w,"VEL_NED: ");dm_vel_ned(&w,&msg->vel_ned);break;
case 0x022E: dp(&w,"VEL_NED_GNSS: ");dm_vel_ned_gnss(&w,&msg->vel_ned_gnss);break;
case 0x020D: dp(&w,"VEL_ECEF: ");dm_vel_ecef(&w,&msg->vel_ecef);break;
case 0x020F: dp(&w,"BASELINE_HEADING: ");dm_baseline_heading(&w,&msg->baseline_heading);break;
case 0x0210: dp(&w,"AGE_CORRECTIONS: ");dm_age_corrections(&w,&msg->age_corrections);break;
case 0x0221: dp(&w,"ORIENT_EULER: ");dm_orient_euler(&w,&msg->orient_euler);break;
case 0x0222: dp(&w,"ANGULAR_RATE: ");dm_angular_rate(&w,&msg->angular_rate);break;
case 0x0900: dp(&w,"IMU_RAW: ");dm_imu_raw(&w,&msg->imu_raw);break;
case 0x0901: dp(&w,"IMU_AUX: ");dm_imu_aux(&w,&msg->imu_aux);break;
case 0x0903: dp(&w,"ODOMETRY: ");dm_odometry(&w,&msg->odometry);break;
case 0x0904: dp(&w,"WHEELTICK: ");dm_wheeltick(&w,&msg->wheeltick);break;
case 0x7777: dp(&w,"SBAS_RAW: ");dm_sbas_raw(&w,&msg->sbas_raw);break;
case 0xFF0E: dp(&w,"SOLN_META: ");dm_soln_meta(&w,&msg->soln_meta);break;
case 0xFF0A: dp(&w,"GROUP_META: ");dm_group_meta(&w,&msg->group_meta);break;
case 0xFF07: dp(&w,"GNSS_TIME_OFFSET: ");dm_gnss_time_offset(&w,&msg->gnss_time_offset);break;
case 0x05DD: dp(&w,"SSR_ORBIT_CLOCK: ");dm_ssr_orbit_clock(&w,&msg->ssr_orbit_clock);break;
case 0x05E1: dp(&w,"SSR_CODE_BIASES: ");dm_ssr_code_biases(&w,&msg->ssr_code_biases);break;
case 0x05E6: dp(&w,"SSR_PHASE_BIASES: ");dm_ssr_phase_biases(&w,&msg->ssr_phase_biases);break;
default: dp(&w,"type 0x%04X",(unsigned)t);} return w.n;}
