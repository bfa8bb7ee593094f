//! Generated by tools/genrserde.py from spec/layout.json; do not edit.
#![allow(unreachable_patterns, clippy::all)]
use crate::{compare, js, seq};
use replay::pkh::R;
use ublox::*;
/// the entries of a packet, and what is written for the packet without class and id
pub fn fields(p: &PacketRef<'_>) -> (Vec<(String, String)>, String) {
    match p {
        PacketRef::NavPosLlh(r) => (vec![("itow".to_string(), js(&r.itow())), ("lon".to_string(), js(&r.lon_degrees())), ("lat".to_string(), js(&r.lat_degrees())), ("height_meters".to_string(), js(&r.height_meters())), ("height_msl".to_string(), js(&r.height_msl())), ("h_ack".to_string(), js(&r.h_ack())), ("v_acc".to_string(), js(&r.v_acc()))], js(r)),
        PacketRef::NavStatus(r) => (vec![("itow".to_string(), js(&r.itow())), ("fix_type".to_string(), js(&r.fix_type_raw())), ("flags".to_string(), js(&r.flags().bits())), ("fix_stat".to_string(), js(&r.fix_stat())), ("flags2".to_string(), js(&r.flags2_raw())), ("time_to_first_fix".to_string(), js(&r.time_to_first_fix())), ("uptime_ms".to_string(), js(&r.uptime_ms()))], js(r)),
        PacketRef::NavDop(r) => (vec![("itow".to_string(), js(&r.itow())), ("geometric_dop".to_string(), js(&r.geometric_dop())), ("position_dop".to_string(), js(&r.position_dop())), ("time_dop".to_string(), js(&r.time_dop())), ("vertical_dop".to_string(), js(&r.vertical_dop())), ("horizontal_dop".to_string(), js(&r.horizontal_dop())), ("northing_dop".to_string(), js(&r.northing_dop())), ("easting_dop".to_string(), js(&r.easting_dop()))], js(r)),
        PacketRef::NavPvt(r) => (vec![("itow".to_string(), js(&r.itow())), ("year".to_string(), js(&r.year())), ("month".to_string(), js(&r.month())), ("day".to_string(), js(&r.day())), ("hour".to_string(), js(&r.hour())), ("min".to_string(), js(&r.min())), ("sec".to_string(), js(&r.sec())), ("valid".to_string(), js(&r.valid())), ("time_accuracy".to_string(), js(&r.time_accuracy())), ("nanosecond".to_string(), js(&r.nanosecond())), ("fix_type".to_string(), js(&r.fix_type_raw())), ("flags".to_string(), js(&r.flags().bits())), ("flags2".to_string(), js(&r.flags2().bits())), ("num_satellites".to_string(), js(&r.num_satellites())), ("lon".to_string(), js(&r.lon_degrees())), ("lat".to_string(), js(&r.lat_degrees())), ("height_meters".to_string(), js(&r.height_meters())), ("height_msl".to_string(), js(&r.height_msl())), ("horiz_accuracy".to_string(), js(&r.horiz_accuracy())), ("vert_accuracy".to_string(), js(&r.vert_accuracy())), ("vel_north".to_string(), js(&r.vel_north())), ("vel_east".to_string(), js(&r.vel_east())), ("vel_down".to_string(), js(&r.vel_down())), ("ground_speed".to_string(), js(&r.ground_speed())), ("heading".to_string(), js(&r.heading_degrees())), ("speed_accuracy_estimate".to_string(), js(&r.speed_accuracy_estimate())), ("heading_accuracy_estimate".to_string(), js(&r.heading_accuracy_estimate())), ("pdop".to_string(), js(&r.pdop())), ("reserved1".to_string(), js(&r.reserved1())), ("heading_of_vehicle".to_string(), js(&r.heading_of_vehicle_degrees())), ("magnetic_declination".to_string(), js(&r.magnetic_declination_degrees())), ("magnetic_declination_accuracy".to_string(), js(&r.magnetic_declination_accuracy_degrees()))], js(r)),
        PacketRef::NavSolution(r) => (vec![("itow".to_string(), js(&r.itow())), ("ftow_ns".to_string(), js(&r.ftow_ns())), ("week".to_string(), js(&r.week())), ("fix_type".to_string(), js(&r.fix_type_raw())), ("flags".to_string(), js(&r.flags().bits())), ("ecef_x".to_string(), js(&r.ecef_x())), ("ecef_y".to_string(), js(&r.ecef_y())), ("ecef_z".to_string(), js(&r.ecef_z())), ("position_accuracy_estimate".to_string(), js(&r.position_accuracy_estimate())), ("ecef_vx".to_string(), js(&r.ecef_vx())), ("ecef_vy".to_string(), js(&r.ecef_vy())), ("ecef_vz".to_string(), js(&r.ecef_vz())), ("speed_accuracy_estimate".to_string(), js(&r.speed_accuracy_estimate())), ("pdop".to_string(), js(&r.pdop())), ("reserved1".to_string(), js(&r.reserved1())), ("num_sv".to_string(), js(&r.num_sv())), ("reserved2".to_string(), js(&r.reserved2()))], js(r)),
        PacketRef::NavVelNed(r) => (vec![("itow".to_string(), js(&r.itow())), ("vel_north".to_string(), js(&r.vel_north())), ("vel_east".to_string(), js(&r.vel_east())), ("vel_down".to_string(), js(&r.vel_down())), ("speed_3d".to_string(), js(&r.speed_3d())), ("ground_speed".to_string(), js(&r.ground_speed())), ("heading".to_string(), js(&r.heading_degrees())), ("speed_accuracy_estimate".to_string(), js(&r.speed_accuracy_estimate())), ("course_heading_accuracy_estimate".to_string(), js(&r.course_heading_accuracy_estimate()))], js(r)),
        PacketRef::NavHpPosLlh(r) => (vec![("version".to_string(), js(&r.version())), ("reserved1".to_string(), js(&r.reserved1())), ("itow".to_string(), js(&r.itow())), ("lon".to_string(), js(&r.lon_degrees())), ("lat".to_string(), js(&r.lat_degrees())), ("height_meters".to_string(), js(&r.height_meters())), ("height_msl".to_string(), js(&r.height_msl())), ("lon_hp".to_string(), js(&r.lon_hp_degrees())), ("lat_hp".to_string(), js(&r.lat_hp_degrees())), ("height_hp_meters".to_string(), js(&r.height_hp_meters())), ("height_hp_msl".to_string(), js(&r.height_hp_msl())), ("horizontal_accuracy".to_string(), js(&r.horizontal_accuracy())), ("vertical_accuracy".to_string(), js(&r.vertical_accuracy()))], js(r)),
        PacketRef::NavHpPosEcef(r) => (vec![("version".to_string(), js(&r.version())), ("reserved1".to_string(), js(&r.reserved1())), ("itow".to_string(), js(&r.itow())), ("ecef_x".to_string(), js(&r.ecef_x_cm())), ("ecef_y".to_string(), js(&r.ecef_y_cm())), ("ecef_z".to_string(), js(&r.ecef_z_cm())), ("ecef_x_hp".to_string(), js(&r.ecef_x_hp_mm())), ("ecef_y_hp".to_string(), js(&r.ecef_y_hp_mm())), ("ecef_z_hp".to_string(), js(&r.ecef_z_hp_mm())), ("flags".to_string(), js(&r.flags().bits())), ("p_acc".to_string(), js(&r.p_acc()))], js(r)),
        PacketRef::NavTimeUTC(r) => (vec![("itow".to_string(), js(&r.itow())), ("time_accuracy_estimate_ns".to_string(), js(&r.time_accuracy_estimate_ns())), ("nanos".to_string(), js(&r.nanos())), ("year".to_string(), js(&r.year())), ("month".to_string(), js(&r.month())), ("day".to_string(), js(&r.day())), ("hour".to_string(), js(&r.hour())), ("min".to_string(), js(&r.min())), ("sec".to_string(), js(&r.sec())), ("valid".to_string(), js(&r.valid().bits()))], js(r)),
        PacketRef::NavTimeLs(r) => (vec![("itow".to_string(), js(&r.itow())), ("version".to_string(), js(&r.version())), ("reserved_1".to_string(), js(&r.reserved_1())), ("src_of_curr_ls".to_string(), js(&r.src_of_curr_ls())), ("current_ls".to_string(), js(&r.current_ls())), ("src_of_ls_change".to_string(), js(&r.src_of_ls_change())), ("ls_change".to_string(), js(&r.ls_change())), ("time_to_ls_event".to_string(), js(&r.time_to_ls_event())), ("date_of_ls_gps_wn".to_string(), js(&r.date_of_ls_gps_wn())), ("date_of_ls_gps_dn".to_string(), js(&r.date_of_ls_gps_dn())), ("reserved_2".to_string(), js(&r.reserved_2())), ("valid".to_string(), js(&r.valid().bits()))], js(r)),
        PacketRef::NavSat(r) => (vec![("itow".to_string(), js(&r.itow())), ("version".to_string(), js(&r.version())), ("num_svs".to_string(), js(&r.num_svs())), ("reserved".to_string(), js(&r.reserved())), ("svs".to_string(), seq(r.svs()))], js(r)),
        PacketRef::NavEoe(r) => (vec![("itow".to_string(), js(&r.itow()))], js(r)),
        PacketRef::NavOdo(r) => (vec![("version".to_string(), js(&r.version())), ("reserved".to_string(), js(&r.reserved())), ("itow".to_string(), js(&r.itow())), ("distance".to_string(), js(&r.distance())), ("total_distance".to_string(), js(&r.total_distance())), ("distance_std".to_string(), js(&r.distance_std()))], js(r)),
        PacketRef::CfgOdo(r) => (vec![("version".to_string(), js(&r.version())), ("reserved".to_string(), js(&r.reserved())), ("flags".to_string(), js(&r.flags().bits())), ("odo_cfg".to_string(), js(&r.odo_cfg_raw())), ("reserved2".to_string(), js(&r.reserved2())), ("cog_max_speed".to_string(), js(&r.cog_max_speed())), ("cog_max_pos_acc".to_string(), js(&r.cog_max_pos_acc())), ("reserved3".to_string(), js(&r.reserved3())), ("vel_lp_gain".to_string(), js(&r.vel_lp_gain())), ("cog_lp_gain".to_string(), js(&r.cog_lp_gain())), ("reserved4".to_string(), js(&r.reserved4()))], js(r)),
        PacketRef::MgaAck(r) => (vec![("ack_type".to_string(), js(&r.ack_type())), ("version".to_string(), js(&r.version())), ("info_code".to_string(), js(&r.info_code_raw())), ("msg_id".to_string(), js(&r.msg_id())), ("msg_payload_start".to_string(), js(&r.msg_payload_start()))], js(r)),
        PacketRef::MgaGpsIono(r) => (vec![("msg_type".to_string(), js(&r.msg_type())), ("version".to_string(), js(&r.version())), ("reserved1".to_string(), js(&r.reserved1())), ("alpha0".to_string(), js(&r.alpha0())), ("alpha1".to_string(), js(&r.alpha1())), ("alpha2".to_string(), js(&r.alpha2())), ("alpha3".to_string(), js(&r.alpha3())), ("beta0".to_string(), js(&r.beta0())), ("beta1".to_string(), js(&r.beta1())), ("beta2".to_string(), js(&r.beta2())), ("beta3".to_string(), js(&r.beta3())), ("reserved2".to_string(), js(&r.reserved2()))], js(r)),
        PacketRef::MgaGpsEph(r) => (vec![("msg_type".to_string(), js(&r.msg_type())), ("version".to_string(), js(&r.version())), ("sv_id".to_string(), js(&r.sv_id())), ("reserved1".to_string(), js(&r.reserved1())), ("fit_interval".to_string(), js(&r.fit_interval())), ("ura_index".to_string(), js(&r.ura_index())), ("sv_health".to_string(), js(&r.sv_health())), ("tgd".to_string(), js(&r.tgd())), ("iodc".to_string(), js(&r.iodc())), ("toc".to_string(), js(&r.toc())), ("reserved2".to_string(), js(&r.reserved2())), ("af2".to_string(), js(&r.af2())), ("af1".to_string(), js(&r.af1())), ("af0".to_string(), js(&r.af0())), ("crs".to_string(), js(&r.crs())), ("delta_n".to_string(), js(&r.delta_n())), ("m0".to_string(), js(&r.m0())), ("cuc".to_string(), js(&r.cuc())), ("cus".to_string(), js(&r.cus())), ("e".to_string(), js(&r.e())), ("sqrt_a".to_string(), js(&r.sqrt_a())), ("toe".to_string(), js(&r.toe())), ("cic".to_string(), js(&r.cic())), ("omega0".to_string(), js(&r.omega0())), ("cis".to_string(), js(&r.cis())), ("crc".to_string(), js(&r.crc())), ("i0".to_string(), js(&r.i0())), ("omega".to_string(), js(&r.omega())), ("omega_dot".to_string(), js(&r.omega_dot())), ("idot".to_string(), js(&r.idot())), ("reserved3".to_string(), js(&r.reserved3()))], js(r)),
        PacketRef::MgaGloEph(r) => (vec![("msg_type".to_string(), js(&r.msg_type())), ("version".to_string(), js(&r.version())), ("sv_id".to_string(), js(&r.sv_id())), ("reserved1".to_string(), js(&r.reserved1())), ("ft".to_string(), js(&r.ft())), ("b".to_string(), js(&r.b())), ("m".to_string(), js(&r.m())), ("h".to_string(), js(&r.h())), ("x".to_string(), js(&r.x())), ("y".to_string(), js(&r.y())), ("z".to_string(), js(&r.z())), ("dx".to_string(), js(&r.dx())), ("dy".to_string(), js(&r.dy())), ("dz".to_string(), js(&r.dz())), ("ddx".to_string(), js(&r.ddx())), ("ddy".to_string(), js(&r.ddy())), ("ddz".to_string(), js(&r.ddz())), ("tb".to_string(), js(&r.tb())), ("gamma".to_string(), js(&r.gamma())), ("e".to_string(), js(&r.e())), ("delta_tau".to_string(), js(&r.delta_tau())), ("tau".to_string(), js(&r.tau())), ("reserved2".to_string(), js(&r.reserved2()))], js(r)),
        PacketRef::AlpSrv(r) => (vec![("id_size".to_string(), js(&r.id_size())), ("data_type".to_string(), js(&r.data_type())), ("offset".to_string(), js(&r.offset())), ("size".to_string(), js(&r.size())), ("file_id".to_string(), js(&r.file_id())), ("data_size".to_string(), js(&r.data_size())), ("id1".to_string(), js(&r.id1())), ("id2".to_string(), js(&r.id2())), ("id3".to_string(), js(&r.id3()))], js(r)),
        PacketRef::AckAck(r) => (vec![("class".to_string(), js(&r.class())), ("msg_id".to_string(), js(&r.msg_id()))], js(r)),
        PacketRef::AckNak(r) => (vec![("class".to_string(), js(&r.class())), ("msg_id".to_string(), js(&r.msg_id()))], js(r)),
        PacketRef::CfgItfm(r) => (vec![("config".to_string(), js(&r.config())), ("config2".to_string(), js(&r.config2()))], js(r)),
        PacketRef::CfgPrtI2c(r) => (vec![("portid".to_string(), js(&r.portid_raw())), ("reserved1".to_string(), js(&r.reserved1())), ("tx_ready".to_string(), js(&r.tx_ready())), ("mode".to_string(), js(&r.mode())), ("reserved2".to_string(), js(&r.reserved2())), ("in_proto_mask".to_string(), js(&r.in_proto_mask().bits())), ("out_proto_mask".to_string(), js(&r.out_proto_mask().bits())), ("flags".to_string(), js(&r.flags())), ("reserved3".to_string(), js(&r.reserved3()))], js(r)),
        PacketRef::CfgPrtSpi(r) => (vec![("portid".to_string(), js(&r.portid_raw())), ("reserved0".to_string(), js(&r.reserved0())), ("tx_ready".to_string(), js(&r.tx_ready())), ("mode".to_string(), js(&r.mode())), ("reserved3".to_string(), js(&r.reserved3())), ("in_proto_mask".to_string(), js(&r.in_proto_mask().bits())), ("out_proto_mask".to_string(), js(&r.out_proto_mask().bits())), ("flags".to_string(), js(&r.flags())), ("reserved5".to_string(), js(&r.reserved5()))], js(r)),
        PacketRef::CfgPrtUart(r) => (vec![("portid".to_string(), js(&r.portid_raw())), ("reserved0".to_string(), js(&r.reserved0())), ("tx_ready".to_string(), js(&r.tx_ready())), ("mode".to_string(), js(&r.mode())), ("baud_rate".to_string(), js(&r.baud_rate())), ("in_proto_mask".to_string(), js(&r.in_proto_mask().bits())), ("out_proto_mask".to_string(), js(&r.out_proto_mask().bits())), ("flags".to_string(), js(&r.flags())), ("reserved5".to_string(), js(&r.reserved5()))], js(r)),
        PacketRef::CfgNav5(r) => (vec![("mask".to_string(), js(&r.mask().bits())), ("dyn_model".to_string(), js(&r.dyn_model_raw())), ("fix_mode".to_string(), js(&r.fix_mode_raw())), ("fixed_alt".to_string(), js(&r.fixed_alt())), ("fixed_alt_var".to_string(), js(&r.fixed_alt_var())), ("min_elev_degrees".to_string(), js(&r.min_elev_degrees())), ("dr_limit".to_string(), js(&r.dr_limit())), ("pdop".to_string(), js(&r.pdop())), ("tdop".to_string(), js(&r.tdop())), ("pacc".to_string(), js(&r.pacc())), ("tacc".to_string(), js(&r.tacc())), ("static_hold_thresh".to_string(), js(&r.static_hold_thresh())), ("dgps_time_out".to_string(), js(&r.dgps_time_out())), ("cno_thresh_num_svs".to_string(), js(&r.cno_thresh_num_svs())), ("cno_thresh".to_string(), js(&r.cno_thresh())), ("reserved1".to_string(), js(&r.reserved1())), ("static_hold_max_dist".to_string(), js(&r.static_hold_max_dist())), ("utc_standard".to_string(), js(&r.utc_standard_raw())), ("reserved2".to_string(), js(&r.reserved2()))], js(r)),
        PacketRef::CfgAnt(r) => (vec![("flags".to_string(), js(&r.flags().bits())), ("pins".to_string(), js(&r.pins()))], js(r)),
        PacketRef::CfgTmode2(r) => (vec![("time_transfer_mode".to_string(), js(&r.time_transfer_mode_raw())), ("reserved1".to_string(), js(&r.reserved1())), ("flags".to_string(), js(&r.flags().bits())), ("ecef_x_or_lat".to_string(), js(&r.ecef_x_or_lat())), ("ecef_y_or_lon".to_string(), js(&r.ecef_y_or_lon())), ("ecef_z_or_alt".to_string(), js(&r.ecef_z_or_alt())), ("fixed_pos_acc".to_string(), js(&r.fixed_pos_acc())), ("survey_in_min_duration".to_string(), js(&r.survey_in_min_duration())), ("survery_in_accur_limit".to_string(), js(&r.survery_in_accur_limit()))], js(r)),
        PacketRef::CfgTmode3(r) => (vec![("version".to_string(), js(&r.version())), ("reserved1".to_string(), js(&r.reserved1())), ("rcvr_mode".to_string(), js(&r.rcvr_mode().bits())), ("flags".to_string(), js(&r.flags().bits())), ("ecef_x_or_lat".to_string(), js(&r.ecef_x_or_lat())), ("ecef_y_or_lon".to_string(), js(&r.ecef_y_or_lon())), ("ecef_z_or_alt".to_string(), js(&r.ecef_z_or_alt())), ("ecef_x_or_lat_hp".to_string(), js(&r.ecef_x_or_lat_hp())), ("ecef_y_or_lon_hp".to_string(), js(&r.ecef_y_or_lon_hp())), ("ecef_z_or_alt_hp".to_string(), js(&r.ecef_z_or_alt_hp())), ("reserved2".to_string(), js(&r.reserved2())), ("fixed_pos_acc".to_string(), js(&r.fixed_pos_acc())), ("sv_in_min_duration".to_string(), js(&r.sv_in_min_duration())), ("sv_in_accur_limit".to_string(), js(&r.sv_in_accur_limit())), ("reserved3".to_string(), js(&r.reserved3()))], js(r)),
        PacketRef::CfgTp5(r) => (vec![("tp_idx".to_string(), js(&r.tp_idx_raw())), ("version".to_string(), js(&r.version())), ("reserved1".to_string(), js(&r.reserved1())), ("ant_cable_delay".to_string(), js(&r.ant_cable_delay())), ("rf_group_delay".to_string(), js(&r.rf_group_delay())), ("freq_period".to_string(), js(&r.freq_period())), ("freq_period_lock".to_string(), js(&r.freq_period_lock())), ("pulse_len_ratio".to_string(), js(&r.pulse_len_ratio())), ("pulse_len_ratio_lock".to_string(), js(&r.pulse_len_ratio_lock())), ("user_delay".to_string(), js(&r.user_delay())), ("flags".to_string(), js(&r.flags().bits()))], js(r)),
        PacketRef::InfError(r) => (vec![("message".to_string(), js(&r.message()))], js(r)),
        PacketRef::InfWarning(r) => (vec![("message".to_string(), js(&r.message()))], js(r)),
        PacketRef::InfNotice(r) => (vec![("message".to_string(), js(&r.message()))], js(r)),
        PacketRef::InfTest(r) => (vec![("message".to_string(), js(&r.message()))], js(r)),
        PacketRef::InfDebug(r) => (vec![("message".to_string(), js(&r.message()))], js(r)),
        PacketRef::RxmRawx(r) => (vec![("rcv_tow".to_string(), js(&r.rcv_tow())), ("week".to_string(), js(&r.week())), ("leap_s".to_string(), js(&r.leap_s())), ("num_meas".to_string(), js(&r.num_meas())), ("rec_stat".to_string(), js(&r.rec_stat().bits())), ("version".to_string(), js(&r.version())), ("reserved1".to_string(), js(&r.reserved1())), ("measurements".to_string(), seq(r.measurements()))], js(r)),
        PacketRef::TimTp(r) => (vec![("tow_ms".to_string(), js(&r.tow_ms())), ("tow_sub_ms".to_string(), js(&r.tow_sub_ms())), ("q_err".to_string(), js(&r.q_err())), ("week".to_string(), js(&r.week())), ("flags".to_string(), js(&r.flags())), ("ref_info".to_string(), js(&r.ref_info()))], js(r)),
        PacketRef::TimTm2(r) => (vec![("ch".to_string(), js(&r.ch())), ("flags".to_string(), js(&r.flags())), ("count".to_string(), js(&r.count())), ("wn_r".to_string(), js(&r.wn_r())), ("wn_f".to_string(), js(&r.wn_f())), ("tow_ms_r".to_string(), js(&r.tow_ms_r())), ("tow_sub_ms_r".to_string(), js(&r.tow_sub_ms_r())), ("tow_ms_f".to_string(), js(&r.tow_ms_f())), ("tow_sub_ms_f".to_string(), js(&r.tow_sub_ms_f())), ("acc_est".to_string(), js(&r.acc_est()))], js(r)),
        PacketRef::MonVer(r) => (vec![("software_version".to_string(), js(&r.software_version())), ("hardware_version".to_string(), js(&r.hardware_version())), ("extension".to_string(), seq(r.extension()))], js(r)),
        PacketRef::MonGnss(r) => (vec![("version".to_string(), js(&r.version())), ("supported".to_string(), js(&r.supported().bits())), ("default".to_string(), js(&r.default().bits())), ("enabled".to_string(), js(&r.enabled().bits())), ("simultaneous".to_string(), js(&r.simultaneous())), ("reserved1".to_string(), js(&r.reserved1()))], js(r)),
        PacketRef::MonHw(r) => (vec![("pin_sel".to_string(), js(&r.pin_sel())), ("pin_bank".to_string(), js(&r.pin_bank())), ("pin_dir".to_string(), js(&r.pin_dir())), ("pin_val".to_string(), js(&r.pin_val())), ("noise_per_ms".to_string(), js(&r.noise_per_ms())), ("agc_cnt".to_string(), js(&r.agc_cnt())), ("a_status".to_string(), js(&r.a_status_raw())), ("a_power".to_string(), js(&r.a_power_raw())), ("flags".to_string(), js(&r.flags())), ("reserved1".to_string(), js(&r.reserved1())), ("used_mask".to_string(), js(&r.used_mask())), ("vp".to_string(), js(&r.vp())), ("jam_ind".to_string(), js(&r.jam_ind())), ("reserved2".to_string(), js(&r.reserved2())), ("pin_irq".to_string(), js(&r.pin_irq())), ("pull_h".to_string(), js(&r.pull_h())), ("pull_l".to_string(), js(&r.pull_l()))], js(r)),
        PacketRef::RxmRtcm(r) => (vec![("version".to_string(), js(&r.version())), ("flags".to_string(), js(&r.flags())), ("sub_type".to_string(), js(&r.sub_type())), ("ref_station".to_string(), js(&r.ref_station())), ("msg_type".to_string(), js(&r.msg_type()))], js(r)),
        PacketRef::EsfMeas(r) => (vec![("time_tag".to_string(), js(&r.time_tag())), ("flags".to_string(), js(&r.flags())), ("id".to_string(), js(&r.id())), ("data".to_string(), seq(r.data())), ("calib_tag".to_string(), js(&r.calib_tag()))], js(r)),
        PacketRef::EsfIns(r) => (vec![("bit_field".to_string(), js(&r.bit_field().bits())), ("reserved".to_string(), js(&r.reserved())), ("itow".to_string(), js(&r.itow())), ("x_ang_rate".to_string(), js(&r.x_angular_rate())), ("y_ang_rate".to_string(), js(&r.y_angular_rate())), ("z_ang_rate".to_string(), js(&r.z_angular_rate())), ("x_accel".to_string(), js(&r.x_acceleration())), ("y_accel".to_string(), js(&r.y_acceleration())), ("z_accel".to_string(), js(&r.z_acceleration()))], js(r)),
        PacketRef::HnrAtt(r) => (vec![("itow".to_string(), js(&r.itow())), ("version".to_string(), js(&r.version())), ("reserved1".to_string(), js(&r.reserved1())), ("roll".to_string(), js(&r.vehicle_roll())), ("pitch".to_string(), js(&r.vehicle_pitch())), ("heading".to_string(), js(&r.vehicle_heading())), ("acc_roll".to_string(), js(&r.vehicle_roll_accuracy())), ("acc_pitch".to_string(), js(&r.vehicle_pitch_accuracy())), ("acc_heading".to_string(), js(&r.vehicle_heading_accuracy()))], js(r)),
        PacketRef::HnrIns(r) => (vec![("bit_field".to_string(), js(&r.bit_field().bits())), ("reserved".to_string(), js(&r.reserved())), ("itow".to_string(), js(&r.itow())), ("x_ang_rate".to_string(), js(&r.x_angular_rate())), ("y_ang_rate".to_string(), js(&r.y_angular_rate())), ("z_ang_rate".to_string(), js(&r.z_angular_rate())), ("x_accel".to_string(), js(&r.x_acceleration())), ("y_accel".to_string(), js(&r.y_acceleration())), ("z_accel".to_string(), js(&r.z_acceleration()))], js(r)),
        PacketRef::HnrPvt(r) => (vec![("itow".to_string(), js(&r.itow())), ("year".to_string(), js(&r.year())), ("month".to_string(), js(&r.month())), ("day".to_string(), js(&r.day())), ("hour".to_string(), js(&r.hour())), ("min".to_string(), js(&r.min())), ("sec".to_string(), js(&r.sec())), ("valid".to_string(), js(&r.valid().bits())), ("nano".to_string(), js(&r.nano())), ("gps_fix".to_string(), js(&r.gps_fix_raw())), ("flags".to_string(), js(&r.flags().bits())), ("reserved1".to_string(), js(&r.reserved1())), ("lon".to_string(), js(&r.longitude())), ("lat".to_string(), js(&r.latitude())), ("height".to_string(), js(&r.height_above_ellipsoid())), ("height_msl".to_string(), js(&r.height_msl())), ("g_speed".to_string(), js(&r.ground_speed_2d())), ("speed".to_string(), js(&r.speed_3d())), ("head_mot".to_string(), js(&r.heading_motion())), ("head_veh".to_string(), js(&r.heading_vehicle())), ("h_acc".to_string(), js(&r.h_acc())), ("v_acc".to_string(), js(&r.v_acc())), ("s_acc".to_string(), js(&r.s_acc())), ("head_acc".to_string(), js(&r.heading_accurracy())), ("reserved2".to_string(), js(&r.reserved2()))], js(r)),
        PacketRef::NavAtt(r) => (vec![("itow".to_string(), js(&r.itow())), ("version".to_string(), js(&r.version())), ("reserved1".to_string(), js(&r.reserved1())), ("roll".to_string(), js(&r.vehicle_roll())), ("pitch".to_string(), js(&r.vehicle_pitch())), ("heading".to_string(), js(&r.vehicle_heading())), ("acc_roll".to_string(), js(&r.vehicle_roll_accuracy())), ("acc_pitch".to_string(), js(&r.vehicle_pitch_accuracy())), ("acc_heading".to_string(), js(&r.vehicle_heading_accuracy()))], js(r)),
        PacketRef::NavClock(r) => (vec![("itow".to_string(), js(&r.itow())), ("clk_b".to_string(), js(&r.clk_b())), ("clk_d".to_string(), js(&r.clk_d())), ("t_acc".to_string(), js(&r.t_acc())), ("f_acc".to_string(), js(&r.f_acc()))], js(r)),
        PacketRef::NavVelECEF(r) => (vec![("itow".to_string(), js(&r.itow())), ("ecef_vx".to_string(), js(&r.ecef_vx())), ("ecef_vy".to_string(), js(&r.ecef_vy())), ("ecef_vz".to_string(), js(&r.ecef_vz())), ("s_acc".to_string(), js(&r.s_acc()))], js(r)),
        PacketRef::MgaGpsEPH(r) => (vec![("msg_type".to_string(), js(&r.msg_type())), ("version".to_string(), js(&r.version())), ("sv_id".to_string(), js(&r.sv_id())), ("reserved1".to_string(), js(&r.reserved1())), ("fit_interval".to_string(), js(&r.fit_interval())), ("ura_index".to_string(), js(&r.ura_index())), ("sv_health".to_string(), js(&r.sv_health())), ("tgd".to_string(), js(&r.tgd())), ("iodc".to_string(), js(&r.iodc())), ("toc".to_string(), js(&r.toc())), ("reserved2".to_string(), js(&r.reserved2())), ("af2".to_string(), js(&r.af2())), ("afl".to_string(), js(&r.afl())), ("af0".to_string(), js(&r.af0())), ("crs".to_string(), js(&r.crs())), ("delta_n".to_string(), js(&r.delta_n())), ("m0".to_string(), js(&r.m0())), ("cuc".to_string(), js(&r.cuc())), ("cus".to_string(), js(&r.cus())), ("e".to_string(), js(&r.e())), ("sqrt_a".to_string(), js(&r.sqrt_a())), ("toe".to_string(), js(&r.toe())), ("cic".to_string(), js(&r.cic())), ("omega0".to_string(), js(&r.omega0())), ("cis".to_string(), js(&r.cis())), ("crc".to_string(), js(&r.crc())), ("i0".to_string(), js(&r.i0())), ("omega".to_string(), js(&r.omega())), ("omega_dot".to_string(), js(&r.omega_dot())), ("idot".to_string(), js(&r.idot())), ("reserved3".to_string(), js(&r.reserved3()))], js(r)),
        PacketRef::RxmSfrbx(r) => (vec![("gnss_id".to_string(), js(&r.gnss_id())), ("sv_id".to_string(), js(&r.sv_id())), ("reserved1".to_string(), js(&r.reserved1())), ("freq_id".to_string(), js(&r.freq_id())), ("num_words".to_string(), js(&r.num_words())), ("reserved2".to_string(), js(&r.reserved2())), ("version".to_string(), js(&r.version())), ("reserved3".to_string(), js(&r.reserved3())), ("dwrd".to_string(), seq(r.dwrd()))], js(r)),
        PacketRef::EsfRaw(r) => (vec![("msss".to_string(), js(&r.msss())), ("data".to_string(), seq(r.data()))], js(r)),
        PacketRef::TimSvin(r) => (vec![("dur".to_string(), js(&r.dur())), ("mean_x".to_string(), js(&r.mean_x())), ("mean_y".to_string(), js(&r.mean_y())), ("mean_z".to_string(), js(&r.mean_z())), ("mean_v".to_string(), js(&r.mean_v())), ("obs".to_string(), js(&r.obs())), ("valid".to_string(), js(&r.valid())), ("active".to_string(), js(&r.active())), ("reserved".to_string(), js(&r.reserved()))], js(r)),
        PacketRef::SecUniqId(r) => (vec![("version".to_string(), js(&r.version())), ("reserved1".to_string(), js(&r.reserved1())), ("unique_id".to_string(), js(&r.unique_id()))], js(r)),
        _ => (vec![("".into(), "".into())], String::new()),
    }
}
/// the blocks inside a packet that are messages of their own
pub fn nested(p: &PacketRef<'_>) -> R {
    match p {
        PacketRef::NavSat(r) => { for x in r.svs() { compare("NavSatSvInfo", &js(&x), &vec![("gnss_id".to_string(), js(&x.gnss_id())), ("sv_id".to_string(), js(&x.sv_id())), ("cno".to_string(), js(&x.cno())), ("elev".to_string(), js(&x.elev())), ("azim".to_string(), js(&x.azim())), ("pr_res".to_string(), js(&x.pr_res())), ("flags".to_string(), js(&x.flags()))])?; } Ok(()) }
        PacketRef::RxmRawx(r) => { for x in r.measurements() { compare("RxmRawxInfo", &js(&x), &vec![("pr_mes".to_string(), js(&x.pr_mes())), ("cp_mes".to_string(), js(&x.cp_mes())), ("do_mes".to_string(), js(&x.do_mes())), ("gnss_id".to_string(), js(&x.gnss_id())), ("sv_id".to_string(), js(&x.sv_id())), ("reserved2".to_string(), js(&x.reserved2())), ("freq_id".to_string(), js(&x.freq_id())), ("lock_time".to_string(), js(&x.lock_time())), ("cno".to_string(), js(&x.cno())), ("pr_stdev".to_string(), js(&x.pr_stdev().bits())), ("cp_stdev".to_string(), js(&x.cp_stdev().bits())), ("do_stdev".to_string(), js(&x.do_stdev().bits())), ("trk_stat".to_string(), js(&x.trk_stat().bits())), ("reserved3".to_string(), js(&x.reserved3()))])?; } Ok(()) }
        _ => Ok(()),
    }
}
