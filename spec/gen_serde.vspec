%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%prelude
/// the serialised form of what an accessor returns for a payload (its value is a function of the payload by its contract)
pub uninterp spec fn value_of(msg: int, field: int, payload: Seq<u8>) -> Form; /*stub: acc*/
/// the payload satisfies the rules of the message
pub uninterp spec fn accepted(msg: int, payload: Seq<u8>) -> bool; /*stub: acc*/
pub trait UbxPacketMeta { const CLASS: u8; const ID: u8; }
pub struct NavPosLlhRef<'a>(pub &'a [u8]);
impl<'a> NavPosLlhRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(0, self.0@), ensures form_of(&r) == value_of(0, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn lon_degrees(&self) -> (r: f64) requires accepted(0, self.0@), ensures form_of(&r) == value_of(0, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn lat_degrees(&self) -> (r: f64) requires accepted(0, self.0@), ensures form_of(&r) == value_of(0, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_meters(&self) -> (r: f64) requires accepted(0, self.0@), ensures form_of(&r) == value_of(0, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_msl(&self) -> (r: f64) requires accepted(0, self.0@), ensures form_of(&r) == value_of(0, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn h_ack(&self) -> (r: f64) requires accepted(0, self.0@), ensures form_of(&r) == value_of(0, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn v_acc(&self) -> (r: f64) requires accepted(0, self.0@), ensures form_of(&r) == value_of(0, 6, self.0@), { unimplemented!() }
}
/// the entries of NavPosLlh, field by field
pub open spec fn entries_NavPosLlh(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(0, 0, s)), (form_of("lon"), value_of(0, 1, s)), (form_of("lat"), value_of(0, 2, s)), (form_of("height_meters"), value_of(0, 3, s)), (form_of("height_msl"), value_of(0, 4, s)), (form_of("h_ack"), value_of(0, 5, s)), (form_of("v_acc"), value_of(0, 6, s))]
}
pub struct NavVelNedRef<'a>(pub &'a [u8]);
impl<'a> NavVelNedRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(1, self.0@), ensures form_of(&r) == value_of(1, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vel_north(&self) -> (r: f64) requires accepted(1, self.0@), ensures form_of(&r) == value_of(1, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vel_east(&self) -> (r: f64) requires accepted(1, self.0@), ensures form_of(&r) == value_of(1, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vel_down(&self) -> (r: f64) requires accepted(1, self.0@), ensures form_of(&r) == value_of(1, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn speed_3d(&self) -> (r: f64) requires accepted(1, self.0@), ensures form_of(&r) == value_of(1, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ground_speed(&self) -> (r: f64) requires accepted(1, self.0@), ensures form_of(&r) == value_of(1, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn heading_degrees(&self) -> (r: f64) requires accepted(1, self.0@), ensures form_of(&r) == value_of(1, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn speed_accuracy_estimate(&self) -> (r: f64) requires accepted(1, self.0@), ensures form_of(&r) == value_of(1, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn course_heading_accuracy_estimate(&self) -> (r: f64) requires accepted(1, self.0@), ensures form_of(&r) == value_of(1, 8, self.0@), { unimplemented!() }
}
/// the entries of NavVelNed, field by field
pub open spec fn entries_NavVelNed(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(1, 0, s)), (form_of("vel_north"), value_of(1, 1, s)), (form_of("vel_east"), value_of(1, 2, s)), (form_of("vel_down"), value_of(1, 3, s)), (form_of("speed_3d"), value_of(1, 4, s)), (form_of("ground_speed"), value_of(1, 5, s)), (form_of("heading"), value_of(1, 6, s)), (form_of("speed_accuracy_estimate"), value_of(1, 7, s)), (form_of("course_heading_accuracy_estimate"), value_of(1, 8, s))]
}
pub struct NavHpPosLlhRef<'a>(pub &'a [u8]);
impl<'a> NavHpPosLlhRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 3]) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn lon_degrees(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn lat_degrees(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_meters(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_msl(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn lon_hp_degrees(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn lat_hp_degrees(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_hp_meters(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_hp_msl(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn horizontal_accuracy(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vertical_accuracy(&self) -> (r: f64) requires accepted(2, self.0@), ensures form_of(&r) == value_of(2, 12, self.0@), { unimplemented!() }
}
/// the entries of NavHpPosLlh, field by field
pub open spec fn entries_NavHpPosLlh(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("version"), value_of(2, 0, s)), (form_of("reserved1"), value_of(2, 1, s)), (form_of("itow"), value_of(2, 2, s)), (form_of("lon"), value_of(2, 3, s)), (form_of("lat"), value_of(2, 4, s)), (form_of("height_meters"), value_of(2, 5, s)), (form_of("height_msl"), value_of(2, 6, s)), (form_of("lon_hp"), value_of(2, 7, s)), (form_of("lat_hp"), value_of(2, 8, s)), (form_of("height_hp_meters"), value_of(2, 9, s)), (form_of("height_hp_msl"), value_of(2, 10, s)), (form_of("horizontal_accuracy"), value_of(2, 11, s)), (form_of("vertical_accuracy"), value_of(2, 12, s))]
}
pub struct NavHpPosEcefRef<'a>(pub &'a [u8]);
impl<'a> NavHpPosEcefRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 3]) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_x_cm(&self) -> (r: f64) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_y_cm(&self) -> (r: f64) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_z_cm(&self) -> (r: f64) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_x_hp_mm(&self) -> (r: f64) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_y_hp_mm(&self) -> (r: f64) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_z_hp_mm(&self) -> (r: f64) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: NavHpPosEcefFlags) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn p_acc(&self) -> (r: f64) requires accepted(3, self.0@), ensures form_of(&r) == value_of(3, 10, self.0@), { unimplemented!() }
}
/// the entries of NavHpPosEcef, field by field
pub open spec fn entries_NavHpPosEcef(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("version"), value_of(3, 0, s)), (form_of("reserved1"), value_of(3, 1, s)), (form_of("itow"), value_of(3, 2, s)), (form_of("ecef_x"), value_of(3, 3, s)), (form_of("ecef_y"), value_of(3, 4, s)), (form_of("ecef_z"), value_of(3, 5, s)), (form_of("ecef_x_hp"), value_of(3, 6, s)), (form_of("ecef_y_hp"), value_of(3, 7, s)), (form_of("ecef_z_hp"), value_of(3, 8, s)), (form_of("flags"), value_of(3, 9, s)), (form_of("p_acc"), value_of(3, 10, s))]
}
pub struct NavPvtRef<'a>(pub &'a [u8]);
impl<'a> NavPvtRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn year(&self) -> (r: u16) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn month(&self) -> (r: u8) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn day(&self) -> (r: u8) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn hour(&self) -> (r: u8) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn min(&self) -> (r: u8) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sec(&self) -> (r: u8) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn valid(&self) -> (r: u8) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn time_accuracy(&self) -> (r: u32) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn nanosecond(&self) -> (r: i32) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fix_type(&self) -> (r: GpsFix) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: NavPvtFlags) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags2(&self) -> (r: NavPvtFlags2) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn num_satellites(&self) -> (r: u8) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn lon_degrees(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 14, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn lat_degrees(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 15, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_meters(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 16, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_msl(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 17, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn horiz_accuracy(&self) -> (r: u32) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 18, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vert_accuracy(&self) -> (r: u32) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 19, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vel_north(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 20, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vel_east(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 21, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vel_down(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 22, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ground_speed(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 23, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn heading_degrees(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 24, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn speed_accuracy_estimate(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 25, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn heading_accuracy_estimate(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 26, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pdop(&self) -> (r: u16) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 27, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 6]) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 28, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn heading_of_vehicle_degrees(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 29, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn magnetic_declination_degrees(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 30, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn magnetic_declination_accuracy_degrees(&self) -> (r: f64) requires accepted(4, self.0@), ensures form_of(&r) == value_of(4, 31, self.0@), { unimplemented!() }
}
/// the entries of NavPvt, field by field
pub open spec fn entries_NavPvt(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(4, 0, s)), (form_of("year"), value_of(4, 1, s)), (form_of("month"), value_of(4, 2, s)), (form_of("day"), value_of(4, 3, s)), (form_of("hour"), value_of(4, 4, s)), (form_of("min"), value_of(4, 5, s)), (form_of("sec"), value_of(4, 6, s)), (form_of("valid"), value_of(4, 7, s)), (form_of("time_accuracy"), value_of(4, 8, s)), (form_of("nanosecond"), value_of(4, 9, s)), (form_of("fix_type"), value_of(4, 10, s)), (form_of("flags"), value_of(4, 11, s)), (form_of("flags2"), value_of(4, 12, s)), (form_of("num_satellites"), value_of(4, 13, s)), (form_of("lon"), value_of(4, 14, s)), (form_of("lat"), value_of(4, 15, s)), (form_of("height_meters"), value_of(4, 16, s)), (form_of("height_msl"), value_of(4, 17, s)), (form_of("horiz_accuracy"), value_of(4, 18, s)), (form_of("vert_accuracy"), value_of(4, 19, s)), (form_of("vel_north"), value_of(4, 20, s)), (form_of("vel_east"), value_of(4, 21, s)), (form_of("vel_down"), value_of(4, 22, s)), (form_of("ground_speed"), value_of(4, 23, s)), (form_of("heading"), value_of(4, 24, s)), (form_of("speed_accuracy_estimate"), value_of(4, 25, s)), (form_of("heading_accuracy_estimate"), value_of(4, 26, s)), (form_of("pdop"), value_of(4, 27, s)), (form_of("reserved1"), value_of(4, 28, s)), (form_of("heading_of_vehicle"), value_of(4, 29, s)), (form_of("magnetic_declination"), value_of(4, 30, s)), (form_of("magnetic_declination_accuracy"), value_of(4, 31, s))]
}
pub struct NavStatusRef<'a>(pub &'a [u8]);
impl<'a> NavStatusRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(5, self.0@), ensures form_of(&r) == value_of(5, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fix_type(&self) -> (r: GpsFix) requires accepted(5, self.0@), ensures form_of(&r) == value_of(5, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: NavStatusFlags) requires accepted(5, self.0@), ensures form_of(&r) == value_of(5, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fix_stat(&self) -> (r: FixStatusInfo) requires accepted(5, self.0@), ensures form_of(&r) == value_of(5, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags2(&self) -> (r: NavStatusFlags2) requires accepted(5, self.0@), ensures form_of(&r) == value_of(5, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn time_to_first_fix(&self) -> (r: u32) requires accepted(5, self.0@), ensures form_of(&r) == value_of(5, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn uptime_ms(&self) -> (r: u32) requires accepted(5, self.0@), ensures form_of(&r) == value_of(5, 6, self.0@), { unimplemented!() }
}
/// the entries of NavStatus, field by field
pub open spec fn entries_NavStatus(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(5, 0, s)), (form_of("fix_type"), value_of(5, 1, s)), (form_of("flags"), value_of(5, 2, s)), (form_of("fix_stat"), value_of(5, 3, s)), (form_of("flags2"), value_of(5, 4, s)), (form_of("time_to_first_fix"), value_of(5, 5, s)), (form_of("uptime_ms"), value_of(5, 6, s))]
}
pub struct NavDopRef<'a>(pub &'a [u8]);
impl<'a> NavDopRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(6, self.0@), ensures form_of(&r) == value_of(6, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn geometric_dop(&self) -> (r: f32) requires accepted(6, self.0@), ensures form_of(&r) == value_of(6, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn position_dop(&self) -> (r: f32) requires accepted(6, self.0@), ensures form_of(&r) == value_of(6, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn time_dop(&self) -> (r: f32) requires accepted(6, self.0@), ensures form_of(&r) == value_of(6, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vertical_dop(&self) -> (r: f32) requires accepted(6, self.0@), ensures form_of(&r) == value_of(6, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn horizontal_dop(&self) -> (r: f32) requires accepted(6, self.0@), ensures form_of(&r) == value_of(6, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn northing_dop(&self) -> (r: f32) requires accepted(6, self.0@), ensures form_of(&r) == value_of(6, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn easting_dop(&self) -> (r: f32) requires accepted(6, self.0@), ensures form_of(&r) == value_of(6, 7, self.0@), { unimplemented!() }
}
/// the entries of NavDop, field by field
pub open spec fn entries_NavDop(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(6, 0, s)), (form_of("geometric_dop"), value_of(6, 1, s)), (form_of("position_dop"), value_of(6, 2, s)), (form_of("time_dop"), value_of(6, 3, s)), (form_of("vertical_dop"), value_of(6, 4, s)), (form_of("horizontal_dop"), value_of(6, 5, s)), (form_of("northing_dop"), value_of(6, 6, s)), (form_of("easting_dop"), value_of(6, 7, s))]
}
pub struct NavEoeRef<'a>(pub &'a [u8]);
impl<'a> NavEoeRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(7, self.0@), ensures form_of(&r) == value_of(7, 0, self.0@), { unimplemented!() }
}
/// the entries of NavEoe, field by field
pub open spec fn entries_NavEoe(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(7, 0, s))]
}
pub struct NavSolutionRef<'a>(pub &'a [u8]);
impl<'a> NavSolutionRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ftow_ns(&self) -> (r: i32) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn week(&self) -> (r: i16) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fix_type(&self) -> (r: GpsFix) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: NavStatusFlags) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_x(&self) -> (r: f64) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_y(&self) -> (r: f64) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_z(&self) -> (r: f64) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn position_accuracy_estimate(&self) -> (r: f64) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_vx(&self) -> (r: f64) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_vy(&self) -> (r: f64) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_vz(&self) -> (r: f64) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn speed_accuracy_estimate(&self) -> (r: f64) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pdop(&self) -> (r: f32) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: u8) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 14, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn num_sv(&self) -> (r: u8) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 15, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: [u8; 4]) requires accepted(8, self.0@), ensures form_of(&r) == value_of(8, 16, self.0@), { unimplemented!() }
}
/// the entries of NavSolution, field by field
pub open spec fn entries_NavSolution(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(8, 0, s)), (form_of("ftow_ns"), value_of(8, 1, s)), (form_of("week"), value_of(8, 2, s)), (form_of("fix_type"), value_of(8, 3, s)), (form_of("flags"), value_of(8, 4, s)), (form_of("ecef_x"), value_of(8, 5, s)), (form_of("ecef_y"), value_of(8, 6, s)), (form_of("ecef_z"), value_of(8, 7, s)), (form_of("position_accuracy_estimate"), value_of(8, 8, s)), (form_of("ecef_vx"), value_of(8, 9, s)), (form_of("ecef_vy"), value_of(8, 10, s)), (form_of("ecef_vz"), value_of(8, 11, s)), (form_of("speed_accuracy_estimate"), value_of(8, 12, s)), (form_of("pdop"), value_of(8, 13, s)), (form_of("reserved1"), value_of(8, 14, s)), (form_of("num_sv"), value_of(8, 15, s)), (form_of("reserved2"), value_of(8, 16, s))]
}
pub struct NavSatSvInfoRef<'a>(pub &'a [u8]);
impl<'a> NavSatSvInfoRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn gnss_id(&self) -> (r: u8) requires accepted(9, self.0@), ensures form_of(&r) == value_of(9, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_id(&self) -> (r: u8) requires accepted(9, self.0@), ensures form_of(&r) == value_of(9, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cno(&self) -> (r: u8) requires accepted(9, self.0@), ensures form_of(&r) == value_of(9, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn elev(&self) -> (r: i8) requires accepted(9, self.0@), ensures form_of(&r) == value_of(9, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn azim(&self) -> (r: i16) requires accepted(9, self.0@), ensures form_of(&r) == value_of(9, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pr_res(&self) -> (r: i16) requires accepted(9, self.0@), ensures form_of(&r) == value_of(9, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: NavSatSvFlags) requires accepted(9, self.0@), ensures form_of(&r) == value_of(9, 6, self.0@), { unimplemented!() }
}
/// the entries of NavSatSvInfo, field by field
pub open spec fn entries_NavSatSvInfo(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("gnss_id"), value_of(9, 0, s)), (form_of("sv_id"), value_of(9, 1, s)), (form_of("cno"), value_of(9, 2, s)), (form_of("elev"), value_of(9, 3, s)), (form_of("azim"), value_of(9, 4, s)), (form_of("pr_res"), value_of(9, 5, s)), (form_of("flags"), value_of(9, 6, s))]
}
pub struct NavSatRef<'a>(pub &'a [u8]);
impl<'a> NavSatRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(10, self.0@), ensures form_of(&r) == value_of(10, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(10, self.0@), ensures form_of(&r) == value_of(10, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn num_svs(&self) -> (r: u8) requires accepted(10, self.0@), ensures form_of(&r) == value_of(10, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved(&self) -> (r: [u8; 2]) requires accepted(10, self.0@), ensures form_of(&r) == value_of(10, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn svs(&self) -> (r: NavSatIter<'_>) requires accepted(10, self.0@), ensures form_of(&FieldIter(r)) == value_of(10, 4, self.0@), { unimplemented!() }
}
/// the entries of NavSat, field by field
pub open spec fn entries_NavSat(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(10, 0, s)), (form_of("version"), value_of(10, 1, s)), (form_of("num_svs"), value_of(10, 2, s)), (form_of("reserved"), value_of(10, 3, s)), (form_of("svs"), value_of(10, 4, s))]
}
pub struct NavOdoRef<'a>(pub &'a [u8]);
impl<'a> NavOdoRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(11, self.0@), ensures form_of(&r) == value_of(11, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved(&self) -> (r: [u8; 3]) requires accepted(11, self.0@), ensures form_of(&r) == value_of(11, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(11, self.0@), ensures form_of(&r) == value_of(11, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn distance(&self) -> (r: u32) requires accepted(11, self.0@), ensures form_of(&r) == value_of(11, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn total_distance(&self) -> (r: u32) requires accepted(11, self.0@), ensures form_of(&r) == value_of(11, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn distance_std(&self) -> (r: u32) requires accepted(11, self.0@), ensures form_of(&r) == value_of(11, 5, self.0@), { unimplemented!() }
}
/// the entries of NavOdo, field by field
pub open spec fn entries_NavOdo(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("version"), value_of(11, 0, s)), (form_of("reserved"), value_of(11, 1, s)), (form_of("itow"), value_of(11, 2, s)), (form_of("distance"), value_of(11, 3, s)), (form_of("total_distance"), value_of(11, 4, s)), (form_of("distance_std"), value_of(11, 5, s))]
}
pub struct CfgOdoRef<'a>(pub &'a [u8]);
impl<'a> CfgOdoRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved(&self) -> (r: [u8; 3]) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: OdoCogFilterFlags) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn odo_cfg(&self) -> (r: OdoProfile) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: [u8; 6]) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cog_max_speed(&self) -> (r: u8) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cog_max_pos_acc(&self) -> (r: u8) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved3(&self) -> (r: [u8; 2]) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vel_lp_gain(&self) -> (r: u8) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cog_lp_gain(&self) -> (r: u8) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved4(&self) -> (r: [u8; 2]) requires accepted(12, self.0@), ensures form_of(&r) == value_of(12, 10, self.0@), { unimplemented!() }
}
/// the entries of CfgOdo, field by field
pub open spec fn entries_CfgOdo(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("version"), value_of(12, 0, s)), (form_of("reserved"), value_of(12, 1, s)), (form_of("flags"), value_of(12, 2, s)), (form_of("odo_cfg"), value_of(12, 3, s)), (form_of("reserved2"), value_of(12, 4, s)), (form_of("cog_max_speed"), value_of(12, 5, s)), (form_of("cog_max_pos_acc"), value_of(12, 6, s)), (form_of("reserved3"), value_of(12, 7, s)), (form_of("vel_lp_gain"), value_of(12, 8, s)), (form_of("cog_lp_gain"), value_of(12, 9, s)), (form_of("reserved4"), value_of(12, 10, s))]
}
pub struct CfgItfmRef<'a>(pub &'a [u8]);
impl<'a> CfgItfmRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn config(&self) -> (r: CfgItfmConfig) requires accepted(13, self.0@), ensures form_of(&r) == value_of(13, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn config2(&self) -> (r: CfgItfmConfig2) requires accepted(13, self.0@), ensures form_of(&r) == value_of(13, 1, self.0@), { unimplemented!() }
}
/// the entries of CfgItfm, field by field
pub open spec fn entries_CfgItfm(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("config"), value_of(13, 0, s)), (form_of("config2"), value_of(13, 1, s))]
}
pub struct CfgInfRef<'a>(pub &'a [u8]);
impl<'a> CfgInfRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn protocol_id(&self) -> (r: u8) requires accepted(14, self.0@), ensures form_of(&r) == value_of(14, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved(&self) -> (r: [u8; 3]) requires accepted(14, self.0@), ensures form_of(&r) == value_of(14, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn inf_msg_mask_0(&self) -> (r: CfgInfMask) requires accepted(14, self.0@), ensures form_of(&r) == value_of(14, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn inf_msg_mask_1(&self) -> (r: CfgInfMask) requires accepted(14, self.0@), ensures form_of(&r) == value_of(14, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn inf_msg_mask_2(&self) -> (r: CfgInfMask) requires accepted(14, self.0@), ensures form_of(&r) == value_of(14, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn inf_msg_mask_3(&self) -> (r: CfgInfMask) requires accepted(14, self.0@), ensures form_of(&r) == value_of(14, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn inf_msg_mask_4(&self) -> (r: CfgInfMask) requires accepted(14, self.0@), ensures form_of(&r) == value_of(14, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn inf_msg_mask_5(&self) -> (r: CfgInfMask) requires accepted(14, self.0@), ensures form_of(&r) == value_of(14, 7, self.0@), { unimplemented!() }
}
/// the entries of CfgInf, field by field
pub open spec fn entries_CfgInf(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("protocol_id"), value_of(14, 0, s)), (form_of("reserved"), value_of(14, 1, s)), (form_of("inf_msg_mask_0"), value_of(14, 2, s)), (form_of("inf_msg_mask_1"), value_of(14, 3, s)), (form_of("inf_msg_mask_2"), value_of(14, 4, s)), (form_of("inf_msg_mask_3"), value_of(14, 5, s)), (form_of("inf_msg_mask_4"), value_of(14, 6, s)), (form_of("inf_msg_mask_5"), value_of(14, 7, s))]
}
pub struct InfErrorRef<'a>(pub &'a [u8]);
impl<'a> InfErrorRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn message(&self) -> (r: Option<&str>) requires accepted(15, self.0@), ensures form_of(&r) == value_of(15, 0, self.0@), { unimplemented!() }
}
/// the entries of InfError, field by field
pub open spec fn entries_InfError(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("message"), value_of(15, 0, s))]
}
pub struct InfNoticeRef<'a>(pub &'a [u8]);
impl<'a> InfNoticeRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn message(&self) -> (r: Option<&str>) requires accepted(16, self.0@), ensures form_of(&r) == value_of(16, 0, self.0@), { unimplemented!() }
}
/// the entries of InfNotice, field by field
pub open spec fn entries_InfNotice(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("message"), value_of(16, 0, s))]
}
pub struct InfTestRef<'a>(pub &'a [u8]);
impl<'a> InfTestRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn message(&self) -> (r: Option<&str>) requires accepted(17, self.0@), ensures form_of(&r) == value_of(17, 0, self.0@), { unimplemented!() }
}
/// the entries of InfTest, field by field
pub open spec fn entries_InfTest(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("message"), value_of(17, 0, s))]
}
pub struct InfWarningRef<'a>(pub &'a [u8]);
impl<'a> InfWarningRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn message(&self) -> (r: Option<&str>) requires accepted(18, self.0@), ensures form_of(&r) == value_of(18, 0, self.0@), { unimplemented!() }
}
/// the entries of InfWarning, field by field
pub open spec fn entries_InfWarning(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("message"), value_of(18, 0, s))]
}
pub struct InfDebugRef<'a>(pub &'a [u8]);
impl<'a> InfDebugRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn message(&self) -> (r: Option<&str>) requires accepted(19, self.0@), ensures form_of(&r) == value_of(19, 0, self.0@), { unimplemented!() }
}
/// the entries of InfDebug, field by field
pub open spec fn entries_InfDebug(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("message"), value_of(19, 0, s))]
}
pub struct AlpSrvRef<'a>(pub &'a [u8]);
impl<'a> AlpSrvRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn id_size(&self) -> (r: u8) requires accepted(20, self.0@), ensures form_of(&r) == value_of(20, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn data_type(&self) -> (r: u8) requires accepted(20, self.0@), ensures form_of(&r) == value_of(20, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn offset(&self) -> (r: u16) requires accepted(20, self.0@), ensures form_of(&r) == value_of(20, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn size(&self) -> (r: u16) requires accepted(20, self.0@), ensures form_of(&r) == value_of(20, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn file_id(&self) -> (r: u16) requires accepted(20, self.0@), ensures form_of(&r) == value_of(20, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn data_size(&self) -> (r: u16) requires accepted(20, self.0@), ensures form_of(&r) == value_of(20, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn id1(&self) -> (r: u8) requires accepted(20, self.0@), ensures form_of(&r) == value_of(20, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn id2(&self) -> (r: u8) requires accepted(20, self.0@), ensures form_of(&r) == value_of(20, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn id3(&self) -> (r: u32) requires accepted(20, self.0@), ensures form_of(&r) == value_of(20, 8, self.0@), { unimplemented!() }
}
/// the entries of AlpSrv, field by field
pub open spec fn entries_AlpSrv(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("id_size"), value_of(20, 0, s)), (form_of("data_type"), value_of(20, 1, s)), (form_of("offset"), value_of(20, 2, s)), (form_of("size"), value_of(20, 3, s)), (form_of("file_id"), value_of(20, 4, s)), (form_of("data_size"), value_of(20, 5, s)), (form_of("id1"), value_of(20, 6, s)), (form_of("id2"), value_of(20, 7, s)), (form_of("id3"), value_of(20, 8, s))]
}
pub struct AckAckRef<'a>(pub &'a [u8]);
impl<'a> AckAckRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn class(&self) -> (r: u8) requires accepted(21, self.0@), ensures form_of(&r) == value_of(21, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn msg_id(&self) -> (r: u8) requires accepted(21, self.0@), ensures form_of(&r) == value_of(21, 1, self.0@), { unimplemented!() }
}
/// the entries of AckAck, field by field
pub open spec fn entries_AckAck(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("class"), value_of(21, 0, s)), (form_of("msg_id"), value_of(21, 1, s))]
}
pub struct AckNakRef<'a>(pub &'a [u8]);
impl<'a> AckNakRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn class(&self) -> (r: u8) requires accepted(22, self.0@), ensures form_of(&r) == value_of(22, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn msg_id(&self) -> (r: u8) requires accepted(22, self.0@), ensures form_of(&r) == value_of(22, 1, self.0@), { unimplemented!() }
}
/// the entries of AckNak, field by field
pub open spec fn entries_AckNak(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("class"), value_of(22, 0, s)), (form_of("msg_id"), value_of(22, 1, s))]
}
pub struct CfgAntRef<'a>(pub &'a [u8]);
impl<'a> CfgAntRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: AntFlags) requires accepted(23, self.0@), ensures form_of(&r) == value_of(23, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pins(&self) -> (r: u16) requires accepted(23, self.0@), ensures form_of(&r) == value_of(23, 1, self.0@), { unimplemented!() }
}
/// the entries of CfgAnt, field by field
pub open spec fn entries_CfgAnt(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("flags"), value_of(23, 0, s)), (form_of("pins"), value_of(23, 1, s))]
}
pub struct CfgTp5Ref<'a>(pub &'a [u8]);
impl<'a> CfgTp5Ref<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn tp_idx(&self) -> (r: CfgTp5TimePulseMode) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 2]) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ant_cable_delay(&self) -> (r: f32) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn rf_group_delay(&self) -> (r: f32) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn freq_period(&self) -> (r: f64) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn freq_period_lock(&self) -> (r: f64) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pulse_len_ratio(&self) -> (r: f64) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pulse_len_ratio_lock(&self) -> (r: f64) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn user_delay(&self) -> (r: f64) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: CfgTp5Flags) requires accepted(24, self.0@), ensures form_of(&r) == value_of(24, 10, self.0@), { unimplemented!() }
}
/// the entries of CfgTp5, field by field
pub open spec fn entries_CfgTp5(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("tp_idx"), value_of(24, 0, s)), (form_of("version"), value_of(24, 1, s)), (form_of("reserved1"), value_of(24, 2, s)), (form_of("ant_cable_delay"), value_of(24, 3, s)), (form_of("rf_group_delay"), value_of(24, 4, s)), (form_of("freq_period"), value_of(24, 5, s)), (form_of("freq_period_lock"), value_of(24, 6, s)), (form_of("pulse_len_ratio"), value_of(24, 7, s)), (form_of("pulse_len_ratio_lock"), value_of(24, 8, s)), (form_of("user_delay"), value_of(24, 9, s)), (form_of("flags"), value_of(24, 10, s))]
}
pub struct CfgTmode2Ref<'a>(pub &'a [u8]);
impl<'a> CfgTmode2Ref<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn time_transfer_mode(&self) -> (r: CfgTmode2TimeXferModes) requires accepted(25, self.0@), ensures form_of(&r) == value_of(25, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: u8) requires accepted(25, self.0@), ensures form_of(&r) == value_of(25, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: CfgTmode2Flags) requires accepted(25, self.0@), ensures form_of(&r) == value_of(25, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_x_or_lat(&self) -> (r: f64) requires accepted(25, self.0@), ensures form_of(&r) == value_of(25, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_y_or_lon(&self) -> (r: f64) requires accepted(25, self.0@), ensures form_of(&r) == value_of(25, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_z_or_alt(&self) -> (r: f64) requires accepted(25, self.0@), ensures form_of(&r) == value_of(25, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fixed_pos_acc(&self) -> (r: f64) requires accepted(25, self.0@), ensures form_of(&r) == value_of(25, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn survey_in_min_duration(&self) -> (r: u32) requires accepted(25, self.0@), ensures form_of(&r) == value_of(25, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn survery_in_accur_limit(&self) -> (r: f64) requires accepted(25, self.0@), ensures form_of(&r) == value_of(25, 8, self.0@), { unimplemented!() }
}
/// the entries of CfgTmode2, field by field
pub open spec fn entries_CfgTmode2(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("time_transfer_mode"), value_of(25, 0, s)), (form_of("reserved1"), value_of(25, 1, s)), (form_of("flags"), value_of(25, 2, s)), (form_of("ecef_x_or_lat"), value_of(25, 3, s)), (form_of("ecef_y_or_lon"), value_of(25, 4, s)), (form_of("ecef_z_or_alt"), value_of(25, 5, s)), (form_of("fixed_pos_acc"), value_of(25, 6, s)), (form_of("survey_in_min_duration"), value_of(25, 7, s)), (form_of("survery_in_accur_limit"), value_of(25, 8, s))]
}
pub struct TimSvinRef<'a>(pub &'a [u8]);
impl<'a> TimSvinRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn dur(&self) -> (r: u32) requires accepted(26, self.0@), ensures form_of(&r) == value_of(26, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn mean_x(&self) -> (r: i32) requires accepted(26, self.0@), ensures form_of(&r) == value_of(26, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn mean_y(&self) -> (r: i32) requires accepted(26, self.0@), ensures form_of(&r) == value_of(26, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn mean_z(&self) -> (r: i32) requires accepted(26, self.0@), ensures form_of(&r) == value_of(26, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn mean_v(&self) -> (r: i32) requires accepted(26, self.0@), ensures form_of(&r) == value_of(26, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn obs(&self) -> (r: u32) requires accepted(26, self.0@), ensures form_of(&r) == value_of(26, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn valid(&self) -> (r: u8) requires accepted(26, self.0@), ensures form_of(&r) == value_of(26, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn active(&self) -> (r: u8) requires accepted(26, self.0@), ensures form_of(&r) == value_of(26, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved(&self) -> (r: [u8; 2]) requires accepted(26, self.0@), ensures form_of(&r) == value_of(26, 8, self.0@), { unimplemented!() }
}
/// the entries of TimSvin, field by field
pub open spec fn entries_TimSvin(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("dur"), value_of(26, 0, s)), (form_of("mean_x"), value_of(26, 1, s)), (form_of("mean_y"), value_of(26, 2, s)), (form_of("mean_z"), value_of(26, 3, s)), (form_of("mean_v"), value_of(26, 4, s)), (form_of("obs"), value_of(26, 5, s)), (form_of("valid"), value_of(26, 6, s)), (form_of("active"), value_of(26, 7, s)), (form_of("reserved"), value_of(26, 8, s))]
}
pub struct NavTimeLsRef<'a>(pub &'a [u8]);
impl<'a> NavTimeLsRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved_1(&self) -> (r: [u8; 3]) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn src_of_curr_ls(&self) -> (r: u8) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn current_ls(&self) -> (r: i8) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn src_of_ls_change(&self) -> (r: u8) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ls_change(&self) -> (r: i8) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn time_to_ls_event(&self) -> (r: i32) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn date_of_ls_gps_wn(&self) -> (r: u16) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn date_of_ls_gps_dn(&self) -> (r: u16) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved_2(&self) -> (r: [u8; 3]) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn valid(&self) -> (r: NavTimeLsFlags) requires accepted(27, self.0@), ensures form_of(&r) == value_of(27, 11, self.0@), { unimplemented!() }
}
/// the entries of NavTimeLs, field by field
pub open spec fn entries_NavTimeLs(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(27, 0, s)), (form_of("version"), value_of(27, 1, s)), (form_of("reserved_1"), value_of(27, 2, s)), (form_of("src_of_curr_ls"), value_of(27, 3, s)), (form_of("current_ls"), value_of(27, 4, s)), (form_of("src_of_ls_change"), value_of(27, 5, s)), (form_of("ls_change"), value_of(27, 6, s)), (form_of("time_to_ls_event"), value_of(27, 7, s)), (form_of("date_of_ls_gps_wn"), value_of(27, 8, s)), (form_of("date_of_ls_gps_dn"), value_of(27, 9, s)), (form_of("reserved_2"), value_of(27, 10, s)), (form_of("valid"), value_of(27, 11, s))]
}
pub struct CfgTmode3Ref<'a>(pub &'a [u8]);
impl<'a> CfgTmode3Ref<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: u8) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn rcvr_mode(&self) -> (r: CfgTmode3RcvrMode) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: CfgTmode3Flags) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_x_or_lat(&self) -> (r: f64) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_y_or_lon(&self) -> (r: f64) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_z_or_alt(&self) -> (r: f64) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_x_or_lat_hp(&self) -> (r: f32) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_y_or_lon_hp(&self) -> (r: f32) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_z_or_alt_hp(&self) -> (r: f32) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: u8) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fixed_pos_acc(&self) -> (r: f64) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_in_min_duration(&self) -> (r: u32) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_in_accur_limit(&self) -> (r: f64) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved3(&self) -> (r: [u8; 8]) requires accepted(28, self.0@), ensures form_of(&r) == value_of(28, 14, self.0@), { unimplemented!() }
}
/// the entries of CfgTmode3, field by field
pub open spec fn entries_CfgTmode3(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("version"), value_of(28, 0, s)), (form_of("reserved1"), value_of(28, 1, s)), (form_of("rcvr_mode"), value_of(28, 2, s)), (form_of("flags"), value_of(28, 3, s)), (form_of("ecef_x_or_lat"), value_of(28, 4, s)), (form_of("ecef_y_or_lon"), value_of(28, 5, s)), (form_of("ecef_z_or_alt"), value_of(28, 6, s)), (form_of("ecef_x_or_lat_hp"), value_of(28, 7, s)), (form_of("ecef_y_or_lon_hp"), value_of(28, 8, s)), (form_of("ecef_z_or_alt_hp"), value_of(28, 9, s)), (form_of("reserved2"), value_of(28, 10, s)), (form_of("fixed_pos_acc"), value_of(28, 11, s)), (form_of("sv_in_min_duration"), value_of(28, 12, s)), (form_of("sv_in_accur_limit"), value_of(28, 13, s)), (form_of("reserved3"), value_of(28, 14, s))]
}
pub struct CfgPrtI2cRef<'a>(pub &'a [u8]);
impl<'a> CfgPrtI2cRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn portid(&self) -> (r: I2cPortId) requires accepted(29, self.0@), ensures form_of(&r) == value_of(29, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: u8) requires accepted(29, self.0@), ensures form_of(&r) == value_of(29, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tx_ready(&self) -> (r: u16) requires accepted(29, self.0@), ensures form_of(&r) == value_of(29, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn mode(&self) -> (r: u32) requires accepted(29, self.0@), ensures form_of(&r) == value_of(29, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: u32) requires accepted(29, self.0@), ensures form_of(&r) == value_of(29, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn in_proto_mask(&self) -> (r: InProtoMask) requires accepted(29, self.0@), ensures form_of(&r) == value_of(29, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn out_proto_mask(&self) -> (r: OutProtoMask) requires accepted(29, self.0@), ensures form_of(&r) == value_of(29, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: u16) requires accepted(29, self.0@), ensures form_of(&r) == value_of(29, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved3(&self) -> (r: u16) requires accepted(29, self.0@), ensures form_of(&r) == value_of(29, 8, self.0@), { unimplemented!() }
}
/// the entries of CfgPrtI2c, field by field
pub open spec fn entries_CfgPrtI2c(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("portid"), value_of(29, 0, s)), (form_of("reserved1"), value_of(29, 1, s)), (form_of("tx_ready"), value_of(29, 2, s)), (form_of("mode"), value_of(29, 3, s)), (form_of("reserved2"), value_of(29, 4, s)), (form_of("in_proto_mask"), value_of(29, 5, s)), (form_of("out_proto_mask"), value_of(29, 6, s)), (form_of("flags"), value_of(29, 7, s)), (form_of("reserved3"), value_of(29, 8, s))]
}
pub struct CfgPrtUartRef<'a>(pub &'a [u8]);
impl<'a> CfgPrtUartRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn portid(&self) -> (r: UartPortId) requires accepted(30, self.0@), ensures form_of(&r) == value_of(30, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved0(&self) -> (r: u8) requires accepted(30, self.0@), ensures form_of(&r) == value_of(30, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tx_ready(&self) -> (r: u16) requires accepted(30, self.0@), ensures form_of(&r) == value_of(30, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn mode(&self) -> (r: UartMode) requires accepted(30, self.0@), ensures form_of(&r) == value_of(30, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn baud_rate(&self) -> (r: u32) requires accepted(30, self.0@), ensures form_of(&r) == value_of(30, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn in_proto_mask(&self) -> (r: InProtoMask) requires accepted(30, self.0@), ensures form_of(&r) == value_of(30, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn out_proto_mask(&self) -> (r: OutProtoMask) requires accepted(30, self.0@), ensures form_of(&r) == value_of(30, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: u16) requires accepted(30, self.0@), ensures form_of(&r) == value_of(30, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved5(&self) -> (r: u16) requires accepted(30, self.0@), ensures form_of(&r) == value_of(30, 8, self.0@), { unimplemented!() }
}
/// the entries of CfgPrtUart, field by field
pub open spec fn entries_CfgPrtUart(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("portid"), value_of(30, 0, s)), (form_of("reserved0"), value_of(30, 1, s)), (form_of("tx_ready"), value_of(30, 2, s)), (form_of("mode"), value_of(30, 3, s)), (form_of("baud_rate"), value_of(30, 4, s)), (form_of("in_proto_mask"), value_of(30, 5, s)), (form_of("out_proto_mask"), value_of(30, 6, s)), (form_of("flags"), value_of(30, 7, s)), (form_of("reserved5"), value_of(30, 8, s))]
}
pub struct CfgPrtSpiRef<'a>(pub &'a [u8]);
impl<'a> CfgPrtSpiRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn portid(&self) -> (r: SpiPortId) requires accepted(31, self.0@), ensures form_of(&r) == value_of(31, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved0(&self) -> (r: u8) requires accepted(31, self.0@), ensures form_of(&r) == value_of(31, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tx_ready(&self) -> (r: u16) requires accepted(31, self.0@), ensures form_of(&r) == value_of(31, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn mode(&self) -> (r: u32) requires accepted(31, self.0@), ensures form_of(&r) == value_of(31, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved3(&self) -> (r: u32) requires accepted(31, self.0@), ensures form_of(&r) == value_of(31, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn in_proto_mask(&self) -> (r: InProtoMask) requires accepted(31, self.0@), ensures form_of(&r) == value_of(31, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn out_proto_mask(&self) -> (r: OutProtoMask) requires accepted(31, self.0@), ensures form_of(&r) == value_of(31, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: u16) requires accepted(31, self.0@), ensures form_of(&r) == value_of(31, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved5(&self) -> (r: u16) requires accepted(31, self.0@), ensures form_of(&r) == value_of(31, 8, self.0@), { unimplemented!() }
}
/// the entries of CfgPrtSpi, field by field
pub open spec fn entries_CfgPrtSpi(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("portid"), value_of(31, 0, s)), (form_of("reserved0"), value_of(31, 1, s)), (form_of("tx_ready"), value_of(31, 2, s)), (form_of("mode"), value_of(31, 3, s)), (form_of("reserved3"), value_of(31, 4, s)), (form_of("in_proto_mask"), value_of(31, 5, s)), (form_of("out_proto_mask"), value_of(31, 6, s)), (form_of("flags"), value_of(31, 7, s)), (form_of("reserved5"), value_of(31, 8, s))]
}
pub struct NavTimeUTCRef<'a>(pub &'a [u8]);
impl<'a> NavTimeUTCRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn time_accuracy_estimate_ns(&self) -> (r: u32) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn nanos(&self) -> (r: i32) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn year(&self) -> (r: u16) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn month(&self) -> (r: u8) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn day(&self) -> (r: u8) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn hour(&self) -> (r: u8) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn min(&self) -> (r: u8) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sec(&self) -> (r: u8) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn valid(&self) -> (r: NavTimeUtcFlags) requires accepted(32, self.0@), ensures form_of(&r) == value_of(32, 9, self.0@), { unimplemented!() }
}
/// the entries of NavTimeUTC, field by field
pub open spec fn entries_NavTimeUTC(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(32, 0, s)), (form_of("time_accuracy_estimate_ns"), value_of(32, 1, s)), (form_of("nanos"), value_of(32, 2, s)), (form_of("year"), value_of(32, 3, s)), (form_of("month"), value_of(32, 4, s)), (form_of("day"), value_of(32, 5, s)), (form_of("hour"), value_of(32, 6, s)), (form_of("min"), value_of(32, 7, s)), (form_of("sec"), value_of(32, 8, s)), (form_of("valid"), value_of(32, 9, s))]
}
pub struct CfgNav5Ref<'a>(pub &'a [u8]);
impl<'a> CfgNav5Ref<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn mask(&self) -> (r: CfgNav5Params) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn dyn_model(&self) -> (r: CfgNav5DynModel) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fix_mode(&self) -> (r: CfgNav5FixMode) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fixed_alt(&self) -> (r: f64) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fixed_alt_var(&self) -> (r: f64) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn min_elev_degrees(&self) -> (r: i8) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn dr_limit(&self) -> (r: u8) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pdop(&self) -> (r: f32) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tdop(&self) -> (r: f32) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pacc(&self) -> (r: u16) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tacc(&self) -> (r: u16) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn static_hold_thresh(&self) -> (r: f32) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn dgps_time_out(&self) -> (r: u8) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cno_thresh_num_svs(&self) -> (r: u8) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cno_thresh(&self) -> (r: u8) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 14, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 2]) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 15, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn static_hold_max_dist(&self) -> (r: u16) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 16, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn utc_standard(&self) -> (r: CfgNav5UtcStandard) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 17, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: [u8; 5]) requires accepted(33, self.0@), ensures form_of(&r) == value_of(33, 18, self.0@), { unimplemented!() }
}
/// the entries of CfgNav5, field by field
pub open spec fn entries_CfgNav5(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("mask"), value_of(33, 0, s)), (form_of("dyn_model"), value_of(33, 1, s)), (form_of("fix_mode"), value_of(33, 2, s)), (form_of("fixed_alt"), value_of(33, 3, s)), (form_of("fixed_alt_var"), value_of(33, 4, s)), (form_of("min_elev_degrees"), value_of(33, 5, s)), (form_of("dr_limit"), value_of(33, 6, s)), (form_of("pdop"), value_of(33, 7, s)), (form_of("tdop"), value_of(33, 8, s)), (form_of("pacc"), value_of(33, 9, s)), (form_of("tacc"), value_of(33, 10, s)), (form_of("static_hold_thresh"), value_of(33, 11, s)), (form_of("dgps_time_out"), value_of(33, 12, s)), (form_of("cno_thresh_num_svs"), value_of(33, 13, s)), (form_of("cno_thresh"), value_of(33, 14, s)), (form_of("reserved1"), value_of(33, 15, s)), (form_of("static_hold_max_dist"), value_of(33, 16, s)), (form_of("utc_standard"), value_of(33, 17, s)), (form_of("reserved2"), value_of(33, 18, s))]
}
pub struct CfgNavX5Ref<'a>(pub &'a [u8]);
impl<'a> CfgNavX5Ref<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u16) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn mask1(&self) -> (r: CfgNavX5Params1) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn mask2(&self) -> (r: CfgNavX5Params2) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 2]) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn min_svs(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn max_svs(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn min_cno_dbhz(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ini_fix_3d(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved3(&self) -> (r: [u8; 2]) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ack_aiding(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn wkn_rollover(&self) -> (r: u16) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sig_atten_comp_mode(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved4(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved5(&self) -> (r: [u8; 2]) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 14, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved6(&self) -> (r: [u8; 2]) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 15, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn use_ppp(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 16, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn aop_cfg(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 17, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved7(&self) -> (r: [u8; 2]) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 18, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn aop_orb_max_err(&self) -> (r: u16) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 19, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved8(&self) -> (r: [u8; 4]) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 20, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved9(&self) -> (r: [u8; 3]) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 21, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn use_adr(&self) -> (r: u8) requires accepted(34, self.0@), ensures form_of(&r) == value_of(34, 22, self.0@), { unimplemented!() }
}
/// the entries of CfgNavX5, field by field
pub open spec fn entries_CfgNavX5(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("version"), value_of(34, 0, s)), (form_of("mask1"), value_of(34, 1, s)), (form_of("mask2"), value_of(34, 2, s)), (form_of("reserved1"), value_of(34, 3, s)), (form_of("min_svs"), value_of(34, 4, s)), (form_of("max_svs"), value_of(34, 5, s)), (form_of("min_cno_dbhz"), value_of(34, 6, s)), (form_of("reserved2"), value_of(34, 7, s)), (form_of("ini_fix_3d"), value_of(34, 8, s)), (form_of("reserved3"), value_of(34, 9, s)), (form_of("ack_aiding"), value_of(34, 10, s)), (form_of("wkn_rollover"), value_of(34, 11, s)), (form_of("sig_atten_comp_mode"), value_of(34, 12, s)), (form_of("reserved4"), value_of(34, 13, s)), (form_of("reserved5"), value_of(34, 14, s)), (form_of("reserved6"), value_of(34, 15, s)), (form_of("use_ppp"), value_of(34, 16, s)), (form_of("aop_cfg"), value_of(34, 17, s)), (form_of("reserved7"), value_of(34, 18, s)), (form_of("aop_orb_max_err"), value_of(34, 19, s)), (form_of("reserved8"), value_of(34, 20, s)), (form_of("reserved9"), value_of(34, 21, s)), (form_of("use_adr"), value_of(34, 22, s))]
}
pub struct MgaAckRef<'a>(pub &'a [u8]);
impl<'a> MgaAckRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn ack_type(&self) -> (r: u8) requires accepted(35, self.0@), ensures form_of(&r) == value_of(35, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(35, self.0@), ensures form_of(&r) == value_of(35, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn info_code(&self) -> (r: MsgAckInfoCode) requires accepted(35, self.0@), ensures form_of(&r) == value_of(35, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn msg_id(&self) -> (r: u8) requires accepted(35, self.0@), ensures form_of(&r) == value_of(35, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn msg_payload_start(&self) -> (r: [u8; 4]) requires accepted(35, self.0@), ensures form_of(&r) == value_of(35, 4, self.0@), { unimplemented!() }
}
/// the entries of MgaAck, field by field
pub open spec fn entries_MgaAck(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("ack_type"), value_of(35, 0, s)), (form_of("version"), value_of(35, 1, s)), (form_of("info_code"), value_of(35, 2, s)), (form_of("msg_id"), value_of(35, 3, s)), (form_of("msg_payload_start"), value_of(35, 4, s))]
}
pub struct MgaGloEphRef<'a>(pub &'a [u8]);
impl<'a> MgaGloEphRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn msg_type(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_id(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ft(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn b(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn m(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn h(&self) -> (r: i8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn x(&self) -> (r: i32) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn y(&self) -> (r: i32) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn z(&self) -> (r: i32) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn dx(&self) -> (r: i32) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn dy(&self) -> (r: i32) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn dz(&self) -> (r: i32) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ddx(&self) -> (r: i8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 14, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ddy(&self) -> (r: i8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 15, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ddz(&self) -> (r: i8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 16, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tb(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 17, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn gamma(&self) -> (r: u16) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 18, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn e(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 19, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn delta_tau(&self) -> (r: u8) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 20, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tau(&self) -> (r: i32) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 21, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: [u8; 4]) requires accepted(36, self.0@), ensures form_of(&r) == value_of(36, 22, self.0@), { unimplemented!() }
}
/// the entries of MgaGloEph, field by field
pub open spec fn entries_MgaGloEph(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("msg_type"), value_of(36, 0, s)), (form_of("version"), value_of(36, 1, s)), (form_of("sv_id"), value_of(36, 2, s)), (form_of("reserved1"), value_of(36, 3, s)), (form_of("ft"), value_of(36, 4, s)), (form_of("b"), value_of(36, 5, s)), (form_of("m"), value_of(36, 6, s)), (form_of("h"), value_of(36, 7, s)), (form_of("x"), value_of(36, 8, s)), (form_of("y"), value_of(36, 9, s)), (form_of("z"), value_of(36, 10, s)), (form_of("dx"), value_of(36, 11, s)), (form_of("dy"), value_of(36, 12, s)), (form_of("dz"), value_of(36, 13, s)), (form_of("ddx"), value_of(36, 14, s)), (form_of("ddy"), value_of(36, 15, s)), (form_of("ddz"), value_of(36, 16, s)), (form_of("tb"), value_of(36, 17, s)), (form_of("gamma"), value_of(36, 18, s)), (form_of("e"), value_of(36, 19, s)), (form_of("delta_tau"), value_of(36, 20, s)), (form_of("tau"), value_of(36, 21, s)), (form_of("reserved2"), value_of(36, 22, s))]
}
pub struct MgaGpsIonoRef<'a>(pub &'a [u8]);
impl<'a> MgaGpsIonoRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn msg_type(&self) -> (r: u8) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 2]) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn alpha0(&self) -> (r: f64) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn alpha1(&self) -> (r: f64) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn alpha2(&self) -> (r: f64) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn alpha3(&self) -> (r: f64) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn beta0(&self) -> (r: f64) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn beta1(&self) -> (r: f64) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn beta2(&self) -> (r: f64) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn beta3(&self) -> (r: f64) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: [u8; 4]) requires accepted(37, self.0@), ensures form_of(&r) == value_of(37, 11, self.0@), { unimplemented!() }
}
/// the entries of MgaGpsIono, field by field
pub open spec fn entries_MgaGpsIono(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("msg_type"), value_of(37, 0, s)), (form_of("version"), value_of(37, 1, s)), (form_of("reserved1"), value_of(37, 2, s)), (form_of("alpha0"), value_of(37, 3, s)), (form_of("alpha1"), value_of(37, 4, s)), (form_of("alpha2"), value_of(37, 5, s)), (form_of("alpha3"), value_of(37, 6, s)), (form_of("beta0"), value_of(37, 7, s)), (form_of("beta1"), value_of(37, 8, s)), (form_of("beta2"), value_of(37, 9, s)), (form_of("beta3"), value_of(37, 10, s)), (form_of("reserved2"), value_of(37, 11, s))]
}
pub struct MgaGpsEphRef<'a>(pub &'a [u8]);
impl<'a> MgaGpsEphRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn msg_type(&self) -> (r: u8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_id(&self) -> (r: u8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: u8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fit_interval(&self) -> (r: u8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ura_index(&self) -> (r: u8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_health(&self) -> (r: u8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tgd(&self) -> (r: i8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn iodc(&self) -> (r: u16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn toc(&self) -> (r: u16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: u8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn af2(&self) -> (r: i8) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn af1(&self) -> (r: i16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn af0(&self) -> (r: i32) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn crs(&self) -> (r: i16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 14, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn delta_n(&self) -> (r: i16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 15, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn m0(&self) -> (r: i32) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 16, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cuc(&self) -> (r: i16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 17, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cus(&self) -> (r: i16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 18, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn e(&self) -> (r: u32) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 19, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sqrt_a(&self) -> (r: u32) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 20, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn toe(&self) -> (r: u16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 21, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cic(&self) -> (r: i16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 22, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn omega0(&self) -> (r: i32) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 23, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cis(&self) -> (r: i16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 24, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn crc(&self) -> (r: i16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 25, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn i0(&self) -> (r: i32) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 26, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn omega(&self) -> (r: i32) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 27, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn omega_dot(&self) -> (r: i32) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 28, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn idot(&self) -> (r: i16) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 29, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved3(&self) -> (r: [u8; 2]) requires accepted(38, self.0@), ensures form_of(&r) == value_of(38, 30, self.0@), { unimplemented!() }
}
/// the entries of MgaGpsEph, field by field
pub open spec fn entries_MgaGpsEph(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("msg_type"), value_of(38, 0, s)), (form_of("version"), value_of(38, 1, s)), (form_of("sv_id"), value_of(38, 2, s)), (form_of("reserved1"), value_of(38, 3, s)), (form_of("fit_interval"), value_of(38, 4, s)), (form_of("ura_index"), value_of(38, 5, s)), (form_of("sv_health"), value_of(38, 6, s)), (form_of("tgd"), value_of(38, 7, s)), (form_of("iodc"), value_of(38, 8, s)), (form_of("toc"), value_of(38, 9, s)), (form_of("reserved2"), value_of(38, 10, s)), (form_of("af2"), value_of(38, 11, s)), (form_of("af1"), value_of(38, 12, s)), (form_of("af0"), value_of(38, 13, s)), (form_of("crs"), value_of(38, 14, s)), (form_of("delta_n"), value_of(38, 15, s)), (form_of("m0"), value_of(38, 16, s)), (form_of("cuc"), value_of(38, 17, s)), (form_of("cus"), value_of(38, 18, s)), (form_of("e"), value_of(38, 19, s)), (form_of("sqrt_a"), value_of(38, 20, s)), (form_of("toe"), value_of(38, 21, s)), (form_of("cic"), value_of(38, 22, s)), (form_of("omega0"), value_of(38, 23, s)), (form_of("cis"), value_of(38, 24, s)), (form_of("crc"), value_of(38, 25, s)), (form_of("i0"), value_of(38, 26, s)), (form_of("omega"), value_of(38, 27, s)), (form_of("omega_dot"), value_of(38, 28, s)), (form_of("idot"), value_of(38, 29, s)), (form_of("reserved3"), value_of(38, 30, s))]
}
pub struct TimTpRef<'a>(pub &'a [u8]);
impl<'a> TimTpRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn tow_ms(&self) -> (r: u32) requires accepted(39, self.0@), ensures form_of(&r) == value_of(39, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tow_sub_ms(&self) -> (r: u32) requires accepted(39, self.0@), ensures form_of(&r) == value_of(39, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn q_err(&self) -> (r: i32) requires accepted(39, self.0@), ensures form_of(&r) == value_of(39, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn week(&self) -> (r: u16) requires accepted(39, self.0@), ensures form_of(&r) == value_of(39, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: TimTpFlags) requires accepted(39, self.0@), ensures form_of(&r) == value_of(39, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ref_info(&self) -> (r: TimTpRefInfo) requires accepted(39, self.0@), ensures form_of(&r) == value_of(39, 5, self.0@), { unimplemented!() }
}
/// the entries of TimTp, field by field
pub open spec fn entries_TimTp(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("tow_ms"), value_of(39, 0, s)), (form_of("tow_sub_ms"), value_of(39, 1, s)), (form_of("q_err"), value_of(39, 2, s)), (form_of("week"), value_of(39, 3, s)), (form_of("flags"), value_of(39, 4, s)), (form_of("ref_info"), value_of(39, 5, s))]
}
pub struct TimTm2Ref<'a>(pub &'a [u8]);
impl<'a> TimTm2Ref<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn ch(&self) -> (r: u8) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: TimTm2Flags) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn count(&self) -> (r: u16) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn wn_r(&self) -> (r: u16) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn wn_f(&self) -> (r: u16) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tow_ms_r(&self) -> (r: u32) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tow_sub_ms_r(&self) -> (r: u32) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tow_ms_f(&self) -> (r: u32) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tow_sub_ms_f(&self) -> (r: u32) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn acc_est(&self) -> (r: u32) requires accepted(40, self.0@), ensures form_of(&r) == value_of(40, 9, self.0@), { unimplemented!() }
}
/// the entries of TimTm2, field by field
pub open spec fn entries_TimTm2(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("ch"), value_of(40, 0, s)), (form_of("flags"), value_of(40, 1, s)), (form_of("count"), value_of(40, 2, s)), (form_of("wn_r"), value_of(40, 3, s)), (form_of("wn_f"), value_of(40, 4, s)), (form_of("tow_ms_r"), value_of(40, 5, s)), (form_of("tow_sub_ms_r"), value_of(40, 6, s)), (form_of("tow_ms_f"), value_of(40, 7, s)), (form_of("tow_sub_ms_f"), value_of(40, 8, s)), (form_of("acc_est"), value_of(40, 9, s))]
}
pub struct RxmRawxRef<'a>(pub &'a [u8]);
impl<'a> RxmRawxRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn rcv_tow(&self) -> (r: f64) requires accepted(41, self.0@), ensures form_of(&r) == value_of(41, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn week(&self) -> (r: u16) requires accepted(41, self.0@), ensures form_of(&r) == value_of(41, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn leap_s(&self) -> (r: i8) requires accepted(41, self.0@), ensures form_of(&r) == value_of(41, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn num_meas(&self) -> (r: u8) requires accepted(41, self.0@), ensures form_of(&r) == value_of(41, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn rec_stat(&self) -> (r: RecStatFlags) requires accepted(41, self.0@), ensures form_of(&r) == value_of(41, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(41, self.0@), ensures form_of(&r) == value_of(41, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 2]) requires accepted(41, self.0@), ensures form_of(&r) == value_of(41, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn measurements(&self) -> (r: RxmRawxInfoIter<'_>) requires accepted(41, self.0@), ensures form_of(&FieldIter(r)) == value_of(41, 7, self.0@), { unimplemented!() }
}
/// the entries of RxmRawx, field by field
pub open spec fn entries_RxmRawx(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("rcv_tow"), value_of(41, 0, s)), (form_of("week"), value_of(41, 1, s)), (form_of("leap_s"), value_of(41, 2, s)), (form_of("num_meas"), value_of(41, 3, s)), (form_of("rec_stat"), value_of(41, 4, s)), (form_of("version"), value_of(41, 5, s)), (form_of("reserved1"), value_of(41, 6, s)), (form_of("measurements"), value_of(41, 7, s))]
}
pub struct MonHwRef<'a>(pub &'a [u8]);
impl<'a> MonHwRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn pin_sel(&self) -> (r: u32) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pin_bank(&self) -> (r: u32) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pin_dir(&self) -> (r: u32) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pin_val(&self) -> (r: u32) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn noise_per_ms(&self) -> (r: u16) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn agc_cnt(&self) -> (r: u16) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn a_status(&self) -> (r: AntennaStatus) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn a_power(&self) -> (r: AntennaPower) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: u8) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: u8) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn used_mask(&self) -> (r: u32) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vp(&self) -> (r: [u8; 17]) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn jam_ind(&self) -> (r: u8) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: [u8; 2]) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pin_irq(&self) -> (r: u32) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 14, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pull_h(&self) -> (r: u32) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 15, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pull_l(&self) -> (r: u32) requires accepted(42, self.0@), ensures form_of(&r) == value_of(42, 16, self.0@), { unimplemented!() }
}
/// the entries of MonHw, field by field
pub open spec fn entries_MonHw(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("pin_sel"), value_of(42, 0, s)), (form_of("pin_bank"), value_of(42, 1, s)), (form_of("pin_dir"), value_of(42, 2, s)), (form_of("pin_val"), value_of(42, 3, s)), (form_of("noise_per_ms"), value_of(42, 4, s)), (form_of("agc_cnt"), value_of(42, 5, s)), (form_of("a_status"), value_of(42, 6, s)), (form_of("a_power"), value_of(42, 7, s)), (form_of("flags"), value_of(42, 8, s)), (form_of("reserved1"), value_of(42, 9, s)), (form_of("used_mask"), value_of(42, 10, s)), (form_of("vp"), value_of(42, 11, s)), (form_of("jam_ind"), value_of(42, 12, s)), (form_of("reserved2"), value_of(42, 13, s)), (form_of("pin_irq"), value_of(42, 14, s)), (form_of("pull_h"), value_of(42, 15, s)), (form_of("pull_l"), value_of(42, 16, s))]
}
pub struct MonGnssRef<'a>(pub &'a [u8]);
impl<'a> MonGnssRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(43, self.0@), ensures form_of(&r) == value_of(43, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn supported(&self) -> (r: MonGnssConstellMask) requires accepted(43, self.0@), ensures form_of(&r) == value_of(43, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn default(&self) -> (r: MonGnssConstellMask) requires accepted(43, self.0@), ensures form_of(&r) == value_of(43, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn enabled(&self) -> (r: MonGnssConstellMask) requires accepted(43, self.0@), ensures form_of(&r) == value_of(43, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn simultaneous(&self) -> (r: u8) requires accepted(43, self.0@), ensures form_of(&r) == value_of(43, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 3]) requires accepted(43, self.0@), ensures form_of(&r) == value_of(43, 5, self.0@), { unimplemented!() }
}
/// the entries of MonGnss, field by field
pub open spec fn entries_MonGnss(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("version"), value_of(43, 0, s)), (form_of("supported"), value_of(43, 1, s)), (form_of("default"), value_of(43, 2, s)), (form_of("enabled"), value_of(43, 3, s)), (form_of("simultaneous"), value_of(43, 4, s)), (form_of("reserved1"), value_of(43, 5, s))]
}
pub struct MonVerRef<'a>(pub &'a [u8]);
impl<'a> MonVerRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn software_version(&self) -> (r: &str) requires accepted(44, self.0@), ensures form_of(&r) == value_of(44, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn hardware_version(&self) -> (r: &str) requires accepted(44, self.0@), ensures form_of(&r) == value_of(44, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn extension(&self) -> (r: MonVerExtensionIter<'_>) requires accepted(44, self.0@), ensures form_of(&FieldIter(r)) == value_of(44, 2, self.0@), { unimplemented!() }
}
/// the entries of MonVer, field by field
pub open spec fn entries_MonVer(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("software_version"), value_of(44, 0, s)), (form_of("hardware_version"), value_of(44, 1, s)), (form_of("extension"), value_of(44, 2, s))]
}
pub struct RxmRtcmRef<'a>(pub &'a [u8]);
impl<'a> RxmRtcmRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(45, self.0@), ensures form_of(&r) == value_of(45, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: u8) requires accepted(45, self.0@), ensures form_of(&r) == value_of(45, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sub_type(&self) -> (r: u16) requires accepted(45, self.0@), ensures form_of(&r) == value_of(45, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ref_station(&self) -> (r: u16) requires accepted(45, self.0@), ensures form_of(&r) == value_of(45, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn msg_type(&self) -> (r: u16) requires accepted(45, self.0@), ensures form_of(&r) == value_of(45, 4, self.0@), { unimplemented!() }
}
/// the entries of RxmRtcm, field by field
pub open spec fn entries_RxmRtcm(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("version"), value_of(45, 0, s)), (form_of("flags"), value_of(45, 1, s)), (form_of("sub_type"), value_of(45, 2, s)), (form_of("ref_station"), value_of(45, 3, s)), (form_of("msg_type"), value_of(45, 4, s))]
}
pub struct EsfMeasRef<'a>(pub &'a [u8]);
impl<'a> EsfMeasRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn time_tag(&self) -> (r: u32) requires accepted(46, self.0@), ensures form_of(&r) == value_of(46, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: u16) requires accepted(46, self.0@), ensures form_of(&r) == value_of(46, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn id(&self) -> (r: u16) requires accepted(46, self.0@), ensures form_of(&r) == value_of(46, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn data(&self) -> (r: EsfMeasDataIter<'_>) requires accepted(46, self.0@), ensures form_of(&FieldIter(r)) == value_of(46, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn calib_tag(&self) -> (r: Option<u32>) requires accepted(46, self.0@), ensures form_of(&r) == value_of(46, 4, self.0@), { unimplemented!() }
}
/// the entries of EsfMeas, field by field
pub open spec fn entries_EsfMeas(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("time_tag"), value_of(46, 0, s)), (form_of("flags"), value_of(46, 1, s)), (form_of("id"), value_of(46, 2, s)), (form_of("data"), value_of(46, 3, s)), (form_of("calib_tag"), value_of(46, 4, s))]
}
pub struct EsfRawRef<'a>(pub &'a [u8]);
impl<'a> EsfRawRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn msss(&self) -> (r: u32) requires accepted(47, self.0@), ensures form_of(&r) == value_of(47, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn data(&self) -> (r: EsfRawDataIter<'_>) requires accepted(47, self.0@), ensures form_of(&FieldIter(r)) == value_of(47, 1, self.0@), { unimplemented!() }
}
/// the entries of EsfRaw, field by field
pub open spec fn entries_EsfRaw(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("msss"), value_of(47, 0, s)), (form_of("data"), value_of(47, 1, s))]
}
pub struct EsfInsRef<'a>(pub &'a [u8]);
impl<'a> EsfInsRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn bit_field(&self) -> (r: EsfInsBitFlags) requires accepted(48, self.0@), ensures form_of(&r) == value_of(48, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved(&self) -> (r: [u8; 4]) requires accepted(48, self.0@), ensures form_of(&r) == value_of(48, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(48, self.0@), ensures form_of(&r) == value_of(48, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn x_angular_rate(&self) -> (r: f64) requires accepted(48, self.0@), ensures form_of(&r) == value_of(48, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn y_angular_rate(&self) -> (r: f64) requires accepted(48, self.0@), ensures form_of(&r) == value_of(48, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn z_angular_rate(&self) -> (r: f64) requires accepted(48, self.0@), ensures form_of(&r) == value_of(48, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn x_acceleration(&self) -> (r: f64) requires accepted(48, self.0@), ensures form_of(&r) == value_of(48, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn y_acceleration(&self) -> (r: f64) requires accepted(48, self.0@), ensures form_of(&r) == value_of(48, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn z_acceleration(&self) -> (r: f64) requires accepted(48, self.0@), ensures form_of(&r) == value_of(48, 8, self.0@), { unimplemented!() }
}
/// the entries of EsfIns, field by field
pub open spec fn entries_EsfIns(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("bit_field"), value_of(48, 0, s)), (form_of("reserved"), value_of(48, 1, s)), (form_of("itow"), value_of(48, 2, s)), (form_of("x_ang_rate"), value_of(48, 3, s)), (form_of("y_ang_rate"), value_of(48, 4, s)), (form_of("z_ang_rate"), value_of(48, 5, s)), (form_of("x_accel"), value_of(48, 6, s)), (form_of("y_accel"), value_of(48, 7, s)), (form_of("z_accel"), value_of(48, 8, s))]
}
pub struct HnrAttRef<'a>(pub &'a [u8]);
impl<'a> HnrAttRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(49, self.0@), ensures form_of(&r) == value_of(49, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(49, self.0@), ensures form_of(&r) == value_of(49, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 3]) requires accepted(49, self.0@), ensures form_of(&r) == value_of(49, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_roll(&self) -> (r: f64) requires accepted(49, self.0@), ensures form_of(&r) == value_of(49, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_pitch(&self) -> (r: f64) requires accepted(49, self.0@), ensures form_of(&r) == value_of(49, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_heading(&self) -> (r: f64) requires accepted(49, self.0@), ensures form_of(&r) == value_of(49, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_roll_accuracy(&self) -> (r: f64) requires accepted(49, self.0@), ensures form_of(&r) == value_of(49, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_pitch_accuracy(&self) -> (r: f64) requires accepted(49, self.0@), ensures form_of(&r) == value_of(49, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_heading_accuracy(&self) -> (r: f64) requires accepted(49, self.0@), ensures form_of(&r) == value_of(49, 8, self.0@), { unimplemented!() }
}
/// the entries of HnrAtt, field by field
pub open spec fn entries_HnrAtt(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(49, 0, s)), (form_of("version"), value_of(49, 1, s)), (form_of("reserved1"), value_of(49, 2, s)), (form_of("roll"), value_of(49, 3, s)), (form_of("pitch"), value_of(49, 4, s)), (form_of("heading"), value_of(49, 5, s)), (form_of("acc_roll"), value_of(49, 6, s)), (form_of("acc_pitch"), value_of(49, 7, s)), (form_of("acc_heading"), value_of(49, 8, s))]
}
pub struct HnrInsRef<'a>(pub &'a [u8]);
impl<'a> HnrInsRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn bit_field(&self) -> (r: HnrInsBitFlags) requires accepted(50, self.0@), ensures form_of(&r) == value_of(50, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved(&self) -> (r: [u8; 4]) requires accepted(50, self.0@), ensures form_of(&r) == value_of(50, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(50, self.0@), ensures form_of(&r) == value_of(50, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn x_angular_rate(&self) -> (r: f64) requires accepted(50, self.0@), ensures form_of(&r) == value_of(50, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn y_angular_rate(&self) -> (r: f64) requires accepted(50, self.0@), ensures form_of(&r) == value_of(50, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn z_angular_rate(&self) -> (r: f64) requires accepted(50, self.0@), ensures form_of(&r) == value_of(50, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn x_acceleration(&self) -> (r: f64) requires accepted(50, self.0@), ensures form_of(&r) == value_of(50, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn y_acceleration(&self) -> (r: f64) requires accepted(50, self.0@), ensures form_of(&r) == value_of(50, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn z_acceleration(&self) -> (r: f64) requires accepted(50, self.0@), ensures form_of(&r) == value_of(50, 8, self.0@), { unimplemented!() }
}
/// the entries of HnrIns, field by field
pub open spec fn entries_HnrIns(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("bit_field"), value_of(50, 0, s)), (form_of("reserved"), value_of(50, 1, s)), (form_of("itow"), value_of(50, 2, s)), (form_of("x_ang_rate"), value_of(50, 3, s)), (form_of("y_ang_rate"), value_of(50, 4, s)), (form_of("z_ang_rate"), value_of(50, 5, s)), (form_of("x_accel"), value_of(50, 6, s)), (form_of("y_accel"), value_of(50, 7, s)), (form_of("z_accel"), value_of(50, 8, s))]
}
pub struct HnrPvtRef<'a>(pub &'a [u8]);
impl<'a> HnrPvtRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn year(&self) -> (r: u16) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn month(&self) -> (r: u8) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn day(&self) -> (r: u8) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn hour(&self) -> (r: u8) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn min(&self) -> (r: u8) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sec(&self) -> (r: u8) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn valid(&self) -> (r: HnrPvtValidFlags) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn nano(&self) -> (r: i32) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn gps_fix(&self) -> (r: GpsFix) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn flags(&self) -> (r: HnrPvtFlags) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 2]) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn longitude(&self) -> (r: f64) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn latitude(&self) -> (r: f64) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_above_ellipsoid(&self) -> (r: f64) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 14, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn height_msl(&self) -> (r: f64) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 15, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ground_speed_2d(&self) -> (r: f64) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 16, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn speed_3d(&self) -> (r: f64) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 17, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn heading_motion(&self) -> (r: f64) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 18, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn heading_vehicle(&self) -> (r: f64) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 19, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn h_acc(&self) -> (r: u32) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 20, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn v_acc(&self) -> (r: u32) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 21, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn s_acc(&self) -> (r: u32) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 22, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn heading_accurracy(&self) -> (r: f64) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 23, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: [u8; 4]) requires accepted(51, self.0@), ensures form_of(&r) == value_of(51, 24, self.0@), { unimplemented!() }
}
/// the entries of HnrPvt, field by field
pub open spec fn entries_HnrPvt(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(51, 0, s)), (form_of("year"), value_of(51, 1, s)), (form_of("month"), value_of(51, 2, s)), (form_of("day"), value_of(51, 3, s)), (form_of("hour"), value_of(51, 4, s)), (form_of("min"), value_of(51, 5, s)), (form_of("sec"), value_of(51, 6, s)), (form_of("valid"), value_of(51, 7, s)), (form_of("nano"), value_of(51, 8, s)), (form_of("gps_fix"), value_of(51, 9, s)), (form_of("flags"), value_of(51, 10, s)), (form_of("reserved1"), value_of(51, 11, s)), (form_of("lon"), value_of(51, 12, s)), (form_of("lat"), value_of(51, 13, s)), (form_of("height"), value_of(51, 14, s)), (form_of("height_msl"), value_of(51, 15, s)), (form_of("g_speed"), value_of(51, 16, s)), (form_of("speed"), value_of(51, 17, s)), (form_of("head_mot"), value_of(51, 18, s)), (form_of("head_veh"), value_of(51, 19, s)), (form_of("h_acc"), value_of(51, 20, s)), (form_of("v_acc"), value_of(51, 21, s)), (form_of("s_acc"), value_of(51, 22, s)), (form_of("head_acc"), value_of(51, 23, s)), (form_of("reserved2"), value_of(51, 24, s))]
}
pub struct NavAttRef<'a>(pub &'a [u8]);
impl<'a> NavAttRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(52, self.0@), ensures form_of(&r) == value_of(52, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(52, self.0@), ensures form_of(&r) == value_of(52, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 3]) requires accepted(52, self.0@), ensures form_of(&r) == value_of(52, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_roll(&self) -> (r: f64) requires accepted(52, self.0@), ensures form_of(&r) == value_of(52, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_pitch(&self) -> (r: f64) requires accepted(52, self.0@), ensures form_of(&r) == value_of(52, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_heading(&self) -> (r: f64) requires accepted(52, self.0@), ensures form_of(&r) == value_of(52, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_roll_accuracy(&self) -> (r: f64) requires accepted(52, self.0@), ensures form_of(&r) == value_of(52, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_pitch_accuracy(&self) -> (r: f64) requires accepted(52, self.0@), ensures form_of(&r) == value_of(52, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn vehicle_heading_accuracy(&self) -> (r: f64) requires accepted(52, self.0@), ensures form_of(&r) == value_of(52, 8, self.0@), { unimplemented!() }
}
/// the entries of NavAtt, field by field
pub open spec fn entries_NavAtt(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(52, 0, s)), (form_of("version"), value_of(52, 1, s)), (form_of("reserved1"), value_of(52, 2, s)), (form_of("roll"), value_of(52, 3, s)), (form_of("pitch"), value_of(52, 4, s)), (form_of("heading"), value_of(52, 5, s)), (form_of("acc_roll"), value_of(52, 6, s)), (form_of("acc_pitch"), value_of(52, 7, s)), (form_of("acc_heading"), value_of(52, 8, s))]
}
pub struct NavClockRef<'a>(pub &'a [u8]);
impl<'a> NavClockRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(53, self.0@), ensures form_of(&r) == value_of(53, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn clk_b(&self) -> (r: i32) requires accepted(53, self.0@), ensures form_of(&r) == value_of(53, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn clk_d(&self) -> (r: i32) requires accepted(53, self.0@), ensures form_of(&r) == value_of(53, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn t_acc(&self) -> (r: u32) requires accepted(53, self.0@), ensures form_of(&r) == value_of(53, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn f_acc(&self) -> (r: u32) requires accepted(53, self.0@), ensures form_of(&r) == value_of(53, 4, self.0@), { unimplemented!() }
}
/// the entries of NavClock, field by field
pub open spec fn entries_NavClock(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(53, 0, s)), (form_of("clk_b"), value_of(53, 1, s)), (form_of("clk_d"), value_of(53, 2, s)), (form_of("t_acc"), value_of(53, 3, s)), (form_of("f_acc"), value_of(53, 4, s))]
}
pub struct RxmSfrbxRef<'a>(pub &'a [u8]);
impl<'a> RxmSfrbxRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn gnss_id(&self) -> (r: u8) requires accepted(54, self.0@), ensures form_of(&r) == value_of(54, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_id(&self) -> (r: u8) requires accepted(54, self.0@), ensures form_of(&r) == value_of(54, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: u8) requires accepted(54, self.0@), ensures form_of(&r) == value_of(54, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn freq_id(&self) -> (r: u8) requires accepted(54, self.0@), ensures form_of(&r) == value_of(54, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn num_words(&self) -> (r: u8) requires accepted(54, self.0@), ensures form_of(&r) == value_of(54, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: u8) requires accepted(54, self.0@), ensures form_of(&r) == value_of(54, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(54, self.0@), ensures form_of(&r) == value_of(54, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved3(&self) -> (r: u8) requires accepted(54, self.0@), ensures form_of(&r) == value_of(54, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn dwrd(&self) -> (r: DwrdIter<'_>) requires accepted(54, self.0@), ensures form_of(&FieldIter(r)) == value_of(54, 8, self.0@), { unimplemented!() }
}
/// the entries of RxmSfrbx, field by field
pub open spec fn entries_RxmSfrbx(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("gnss_id"), value_of(54, 0, s)), (form_of("sv_id"), value_of(54, 1, s)), (form_of("reserved1"), value_of(54, 2, s)), (form_of("freq_id"), value_of(54, 3, s)), (form_of("num_words"), value_of(54, 4, s)), (form_of("reserved2"), value_of(54, 5, s)), (form_of("version"), value_of(54, 6, s)), (form_of("reserved3"), value_of(54, 7, s)), (form_of("dwrd"), value_of(54, 8, s))]
}
pub struct NavVelECEFRef<'a>(pub &'a [u8]);
impl<'a> NavVelECEFRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn itow(&self) -> (r: u32) requires accepted(55, self.0@), ensures form_of(&r) == value_of(55, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_vx(&self) -> (r: i32) requires accepted(55, self.0@), ensures form_of(&r) == value_of(55, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_vy(&self) -> (r: i32) requires accepted(55, self.0@), ensures form_of(&r) == value_of(55, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ecef_vz(&self) -> (r: i32) requires accepted(55, self.0@), ensures form_of(&r) == value_of(55, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn s_acc(&self) -> (r: u32) requires accepted(55, self.0@), ensures form_of(&r) == value_of(55, 4, self.0@), { unimplemented!() }
}
/// the entries of NavVelECEF, field by field
pub open spec fn entries_NavVelECEF(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("itow"), value_of(55, 0, s)), (form_of("ecef_vx"), value_of(55, 1, s)), (form_of("ecef_vy"), value_of(55, 2, s)), (form_of("ecef_vz"), value_of(55, 3, s)), (form_of("s_acc"), value_of(55, 4, s))]
}
pub struct MgaGpsEPHRef<'a>(pub &'a [u8]);
impl<'a> MgaGpsEPHRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn msg_type(&self) -> (r: u8) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_id(&self) -> (r: u8) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: u8) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn fit_interval(&self) -> (r: u8) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn ura_index(&self) -> (r: u8) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_health(&self) -> (r: u8) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn tgd(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn iodc(&self) -> (r: u16) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn toc(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: u8) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn af2(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn afl(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn af0(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 13, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn crs(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 14, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn delta_n(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 15, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn m0(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 16, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cuc(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 17, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cus(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 18, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn e(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 19, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sqrt_a(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 20, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn toe(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 21, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cic(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 22, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn omega0(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 23, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cis(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 24, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn crc(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 25, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn i0(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 26, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn omega(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 27, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn omega_dot(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 28, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn idot(&self) -> (r: f64) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 29, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved3(&self) -> (r: [u8; 2]) requires accepted(56, self.0@), ensures form_of(&r) == value_of(56, 30, self.0@), { unimplemented!() }
}
/// the entries of MgaGpsEPH, field by field
pub open spec fn entries_MgaGpsEPH(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("msg_type"), value_of(56, 0, s)), (form_of("version"), value_of(56, 1, s)), (form_of("sv_id"), value_of(56, 2, s)), (form_of("reserved1"), value_of(56, 3, s)), (form_of("fit_interval"), value_of(56, 4, s)), (form_of("ura_index"), value_of(56, 5, s)), (form_of("sv_health"), value_of(56, 6, s)), (form_of("tgd"), value_of(56, 7, s)), (form_of("iodc"), value_of(56, 8, s)), (form_of("toc"), value_of(56, 9, s)), (form_of("reserved2"), value_of(56, 10, s)), (form_of("af2"), value_of(56, 11, s)), (form_of("afl"), value_of(56, 12, s)), (form_of("af0"), value_of(56, 13, s)), (form_of("crs"), value_of(56, 14, s)), (form_of("delta_n"), value_of(56, 15, s)), (form_of("m0"), value_of(56, 16, s)), (form_of("cuc"), value_of(56, 17, s)), (form_of("cus"), value_of(56, 18, s)), (form_of("e"), value_of(56, 19, s)), (form_of("sqrt_a"), value_of(56, 20, s)), (form_of("toe"), value_of(56, 21, s)), (form_of("cic"), value_of(56, 22, s)), (form_of("omega0"), value_of(56, 23, s)), (form_of("cis"), value_of(56, 24, s)), (form_of("crc"), value_of(56, 25, s)), (form_of("i0"), value_of(56, 26, s)), (form_of("omega"), value_of(56, 27, s)), (form_of("omega_dot"), value_of(56, 28, s)), (form_of("idot"), value_of(56, 29, s)), (form_of("reserved3"), value_of(56, 30, s))]
}
pub struct RxmRawxInfoRef<'a>(pub &'a [u8]);
impl<'a> RxmRawxInfoRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn pr_mes(&self) -> (r: f64) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cp_mes(&self) -> (r: f64) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn do_mes(&self) -> (r: f32) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 2, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn gnss_id(&self) -> (r: u8) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 3, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn sv_id(&self) -> (r: u8) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 4, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved2(&self) -> (r: u8) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 5, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn freq_id(&self) -> (r: u8) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 6, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn lock_time(&self) -> (r: u16) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 7, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cno(&self) -> (r: u8) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 8, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn pr_stdev(&self) -> (r: StdevFlags) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 9, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn cp_stdev(&self) -> (r: StdevFlags) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 10, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn do_stdev(&self) -> (r: StdevFlags) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 11, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn trk_stat(&self) -> (r: TrkStatFlags) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 12, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved3(&self) -> (r: u8) requires accepted(57, self.0@), ensures form_of(&r) == value_of(57, 13, self.0@), { unimplemented!() }
}
/// the entries of RxmRawxInfo, field by field
pub open spec fn entries_RxmRawxInfo(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("pr_mes"), value_of(57, 0, s)), (form_of("cp_mes"), value_of(57, 1, s)), (form_of("do_mes"), value_of(57, 2, s)), (form_of("gnss_id"), value_of(57, 3, s)), (form_of("sv_id"), value_of(57, 4, s)), (form_of("reserved2"), value_of(57, 5, s)), (form_of("freq_id"), value_of(57, 6, s)), (form_of("lock_time"), value_of(57, 7, s)), (form_of("cno"), value_of(57, 8, s)), (form_of("pr_stdev"), value_of(57, 9, s)), (form_of("cp_stdev"), value_of(57, 10, s)), (form_of("do_stdev"), value_of(57, 11, s)), (form_of("trk_stat"), value_of(57, 12, s)), (form_of("reserved3"), value_of(57, 13, s))]
}
pub struct SecUniqIdRef<'a>(pub &'a [u8]);
impl<'a> SecUniqIdRef<'a> {
    #[verifier::external_body] /*stub: acc*/ pub fn version(&self) -> (r: u8) requires accepted(58, self.0@), ensures form_of(&r) == value_of(58, 0, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn reserved1(&self) -> (r: [u8; 3]) requires accepted(58, self.0@), ensures form_of(&r) == value_of(58, 1, self.0@), { unimplemented!() }
    #[verifier::external_body] /*stub: acc*/ pub fn unique_id(&self) -> (r: [u8; 5]) requires accepted(58, self.0@), ensures form_of(&r) == value_of(58, 2, self.0@), { unimplemented!() }
}
/// the entries of SecUniqId, field by field
pub open spec fn entries_SecUniqId(s: Seq<u8>) -> Seq<(Form, Form)> {
    seq![(form_of("version"), value_of(58, 0, s)), (form_of("reserved1"), value_of(58, 1, s)), (form_of("unique_id"), value_of(58, 2, s))]
}
pub struct CfgItfmConfig { x: u8 }
pub struct CfgItfmConfig2 { x: u8 }
pub struct DwrdIter<'a> { pub x: &'a [u8] }
// { x: u8 }
pub struct EsfMeasDataIter<'a> { pub x: &'a [u8] }
// { x: u8 }
pub struct EsfRawDataIter<'a> { pub x: &'a [u8] }
// { x: u8 }
pub struct FixStatusInfo { x: u8 }
pub struct MonVerExtensionIter<'a> { pub x: &'a [u8] }
// { x: u8 }
pub struct NavSatIter<'a> { pub x: &'a [u8] }
// { x: u8 }
pub struct NavSatSvFlags { x: u8 }
pub struct RxmRawxInfoIter<'a> { pub x: &'a [u8] }
// { x: u8 }
pub struct TimTm2Flags { x: u8 }
pub struct TimTpFlags { x: u8 }
pub struct TimTpRefInfo { x: u8 }
pub struct UartMode { x: u8 }
/// the code of AntennaPower
pub open spec fn AntennaPower_code(e: AntennaPower) -> u8 {
    match e { AntennaPower::Off => 0, AntennaPower::On => 1, AntennaPower::DontKnow => 2, AntennaPower::Reserved3 => 3, AntennaPower::Reserved4 => 4, AntennaPower::Reserved5 => 5, AntennaPower::Reserved6 => 6, AntennaPower::Reserved7 => 7, AntennaPower::Reserved8 => 8, AntennaPower::Reserved9 => 9, AntennaPower::Reserved10 => 10, AntennaPower::Reserved11 => 11, AntennaPower::Reserved12 => 12, AntennaPower::Reserved13 => 13, AntennaPower::Reserved14 => 14, AntennaPower::Reserved15 => 15, AntennaPower::Reserved16 => 16, AntennaPower::Reserved17 => 17, AntennaPower::Reserved18 => 18, AntennaPower::Reserved19 => 19, AntennaPower::Reserved20 => 20, AntennaPower::Reserved21 => 21, AntennaPower::Reserved22 => 22, AntennaPower::Reserved23 => 23, AntennaPower::Reserved24 => 24, AntennaPower::Reserved25 => 25, AntennaPower::Reserved26 => 26, AntennaPower::Reserved27 => 27, AntennaPower::Reserved28 => 28, AntennaPower::Reserved29 => 29, AntennaPower::Reserved30 => 30, AntennaPower::Reserved31 => 31, AntennaPower::Reserved32 => 32, AntennaPower::Reserved33 => 33, AntennaPower::Reserved34 => 34, AntennaPower::Reserved35 => 35, AntennaPower::Reserved36 => 36, AntennaPower::Reserved37 => 37, AntennaPower::Reserved38 => 38, AntennaPower::Reserved39 => 39, AntennaPower::Reserved40 => 40, AntennaPower::Reserved41 => 41, AntennaPower::Reserved42 => 42, AntennaPower::Reserved43 => 43, AntennaPower::Reserved44 => 44, AntennaPower::Reserved45 => 45, AntennaPower::Reserved46 => 46, AntennaPower::Reserved47 => 47, AntennaPower::Reserved48 => 48, AntennaPower::Reserved49 => 49, AntennaPower::Reserved50 => 50, AntennaPower::Reserved51 => 51, AntennaPower::Reserved52 => 52, AntennaPower::Reserved53 => 53, AntennaPower::Reserved54 => 54, AntennaPower::Reserved55 => 55, AntennaPower::Reserved56 => 56, AntennaPower::Reserved57 => 57, AntennaPower::Reserved58 => 58, AntennaPower::Reserved59 => 59, AntennaPower::Reserved60 => 60, AntennaPower::Reserved61 => 61, AntennaPower::Reserved62 => 62, AntennaPower::Reserved63 => 63, AntennaPower::Reserved64 => 64, AntennaPower::Reserved65 => 65, AntennaPower::Reserved66 => 66, AntennaPower::Reserved67 => 67, AntennaPower::Reserved68 => 68, AntennaPower::Reserved69 => 69, AntennaPower::Reserved70 => 70, AntennaPower::Reserved71 => 71, AntennaPower::Reserved72 => 72, AntennaPower::Reserved73 => 73, AntennaPower::Reserved74 => 74, AntennaPower::Reserved75 => 75, AntennaPower::Reserved76 => 76, AntennaPower::Reserved77 => 77, AntennaPower::Reserved78 => 78, AntennaPower::Reserved79 => 79, AntennaPower::Reserved80 => 80, AntennaPower::Reserved81 => 81, AntennaPower::Reserved82 => 82, AntennaPower::Reserved83 => 83, AntennaPower::Reserved84 => 84, AntennaPower::Reserved85 => 85, AntennaPower::Reserved86 => 86, AntennaPower::Reserved87 => 87, AntennaPower::Reserved88 => 88, AntennaPower::Reserved89 => 89, AntennaPower::Reserved90 => 90, AntennaPower::Reserved91 => 91, AntennaPower::Reserved92 => 92, AntennaPower::Reserved93 => 93, AntennaPower::Reserved94 => 94, AntennaPower::Reserved95 => 95, AntennaPower::Reserved96 => 96, AntennaPower::Reserved97 => 97, AntennaPower::Reserved98 => 98, AntennaPower::Reserved99 => 99, AntennaPower::Reserved100 => 100, AntennaPower::Reserved101 => 101, AntennaPower::Reserved102 => 102, AntennaPower::Reserved103 => 103, AntennaPower::Reserved104 => 104, AntennaPower::Reserved105 => 105, AntennaPower::Reserved106 => 106, AntennaPower::Reserved107 => 107, AntennaPower::Reserved108 => 108, AntennaPower::Reserved109 => 109, AntennaPower::Reserved110 => 110, AntennaPower::Reserved111 => 111, AntennaPower::Reserved112 => 112, AntennaPower::Reserved113 => 113, AntennaPower::Reserved114 => 114, AntennaPower::Reserved115 => 115, AntennaPower::Reserved116 => 116, AntennaPower::Reserved117 => 117, AntennaPower::Reserved118 => 118, AntennaPower::Reserved119 => 119, AntennaPower::Reserved120 => 120, AntennaPower::Reserved121 => 121, AntennaPower::Reserved122 => 122, AntennaPower::Reserved123 => 123, AntennaPower::Reserved124 => 124, AntennaPower::Reserved125 => 125, AntennaPower::Reserved126 => 126, AntennaPower::Reserved127 => 127, AntennaPower::Reserved128 => 128, AntennaPower::Reserved129 => 129, AntennaPower::Reserved130 => 130, AntennaPower::Reserved131 => 131, AntennaPower::Reserved132 => 132, AntennaPower::Reserved133 => 133, AntennaPower::Reserved134 => 134, AntennaPower::Reserved135 => 135, AntennaPower::Reserved136 => 136, AntennaPower::Reserved137 => 137, AntennaPower::Reserved138 => 138, AntennaPower::Reserved139 => 139, AntennaPower::Reserved140 => 140, AntennaPower::Reserved141 => 141, AntennaPower::Reserved142 => 142, AntennaPower::Reserved143 => 143, AntennaPower::Reserved144 => 144, AntennaPower::Reserved145 => 145, AntennaPower::Reserved146 => 146, AntennaPower::Reserved147 => 147, AntennaPower::Reserved148 => 148, AntennaPower::Reserved149 => 149, AntennaPower::Reserved150 => 150, AntennaPower::Reserved151 => 151, AntennaPower::Reserved152 => 152, AntennaPower::Reserved153 => 153, AntennaPower::Reserved154 => 154, AntennaPower::Reserved155 => 155, AntennaPower::Reserved156 => 156, AntennaPower::Reserved157 => 157, AntennaPower::Reserved158 => 158, AntennaPower::Reserved159 => 159, AntennaPower::Reserved160 => 160, AntennaPower::Reserved161 => 161, AntennaPower::Reserved162 => 162, AntennaPower::Reserved163 => 163, AntennaPower::Reserved164 => 164, AntennaPower::Reserved165 => 165, AntennaPower::Reserved166 => 166, AntennaPower::Reserved167 => 167, AntennaPower::Reserved168 => 168, AntennaPower::Reserved169 => 169, AntennaPower::Reserved170 => 170, AntennaPower::Reserved171 => 171, AntennaPower::Reserved172 => 172, AntennaPower::Reserved173 => 173, AntennaPower::Reserved174 => 174, AntennaPower::Reserved175 => 175, AntennaPower::Reserved176 => 176, AntennaPower::Reserved177 => 177, AntennaPower::Reserved178 => 178, AntennaPower::Reserved179 => 179, AntennaPower::Reserved180 => 180, AntennaPower::Reserved181 => 181, AntennaPower::Reserved182 => 182, AntennaPower::Reserved183 => 183, AntennaPower::Reserved184 => 184, AntennaPower::Reserved185 => 185, AntennaPower::Reserved186 => 186, AntennaPower::Reserved187 => 187, AntennaPower::Reserved188 => 188, AntennaPower::Reserved189 => 189, AntennaPower::Reserved190 => 190, AntennaPower::Reserved191 => 191, AntennaPower::Reserved192 => 192, AntennaPower::Reserved193 => 193, AntennaPower::Reserved194 => 194, AntennaPower::Reserved195 => 195, AntennaPower::Reserved196 => 196, AntennaPower::Reserved197 => 197, AntennaPower::Reserved198 => 198, AntennaPower::Reserved199 => 199, AntennaPower::Reserved200 => 200, AntennaPower::Reserved201 => 201, AntennaPower::Reserved202 => 202, AntennaPower::Reserved203 => 203, AntennaPower::Reserved204 => 204, AntennaPower::Reserved205 => 205, AntennaPower::Reserved206 => 206, AntennaPower::Reserved207 => 207, AntennaPower::Reserved208 => 208, AntennaPower::Reserved209 => 209, AntennaPower::Reserved210 => 210, AntennaPower::Reserved211 => 211, AntennaPower::Reserved212 => 212, AntennaPower::Reserved213 => 213, AntennaPower::Reserved214 => 214, AntennaPower::Reserved215 => 215, AntennaPower::Reserved216 => 216, AntennaPower::Reserved217 => 217, AntennaPower::Reserved218 => 218, AntennaPower::Reserved219 => 219, AntennaPower::Reserved220 => 220, AntennaPower::Reserved221 => 221, AntennaPower::Reserved222 => 222, AntennaPower::Reserved223 => 223, AntennaPower::Reserved224 => 224, AntennaPower::Reserved225 => 225, AntennaPower::Reserved226 => 226, AntennaPower::Reserved227 => 227, AntennaPower::Reserved228 => 228, AntennaPower::Reserved229 => 229, AntennaPower::Reserved230 => 230, AntennaPower::Reserved231 => 231, AntennaPower::Reserved232 => 232, AntennaPower::Reserved233 => 233, AntennaPower::Reserved234 => 234, AntennaPower::Reserved235 => 235, AntennaPower::Reserved236 => 236, AntennaPower::Reserved237 => 237, AntennaPower::Reserved238 => 238, AntennaPower::Reserved239 => 239, AntennaPower::Reserved240 => 240, AntennaPower::Reserved241 => 241, AntennaPower::Reserved242 => 242, AntennaPower::Reserved243 => 243, AntennaPower::Reserved244 => 244, AntennaPower::Reserved245 => 245, AntennaPower::Reserved246 => 246, AntennaPower::Reserved247 => 247, AntennaPower::Reserved248 => 248, AntennaPower::Reserved249 => 249, AntennaPower::Reserved250 => 250, AntennaPower::Reserved251 => 251, AntennaPower::Reserved252 => 252, AntennaPower::Reserved253 => 253, AntennaPower::Reserved254 => 254, AntennaPower::Reserved255 => 255 }
}
/// the code of AntennaStatus
pub open spec fn AntennaStatus_code(e: AntennaStatus) -> u8 {
    match e { AntennaStatus::Init => 0, AntennaStatus::DontKnow => 1, AntennaStatus::Ok => 2, AntennaStatus::Short => 3, AntennaStatus::Open => 4, AntennaStatus::Reserved5 => 5, AntennaStatus::Reserved6 => 6, AntennaStatus::Reserved7 => 7, AntennaStatus::Reserved8 => 8, AntennaStatus::Reserved9 => 9, AntennaStatus::Reserved10 => 10, AntennaStatus::Reserved11 => 11, AntennaStatus::Reserved12 => 12, AntennaStatus::Reserved13 => 13, AntennaStatus::Reserved14 => 14, AntennaStatus::Reserved15 => 15, AntennaStatus::Reserved16 => 16, AntennaStatus::Reserved17 => 17, AntennaStatus::Reserved18 => 18, AntennaStatus::Reserved19 => 19, AntennaStatus::Reserved20 => 20, AntennaStatus::Reserved21 => 21, AntennaStatus::Reserved22 => 22, AntennaStatus::Reserved23 => 23, AntennaStatus::Reserved24 => 24, AntennaStatus::Reserved25 => 25, AntennaStatus::Reserved26 => 26, AntennaStatus::Reserved27 => 27, AntennaStatus::Reserved28 => 28, AntennaStatus::Reserved29 => 29, AntennaStatus::Reserved30 => 30, AntennaStatus::Reserved31 => 31, AntennaStatus::Reserved32 => 32, AntennaStatus::Reserved33 => 33, AntennaStatus::Reserved34 => 34, AntennaStatus::Reserved35 => 35, AntennaStatus::Reserved36 => 36, AntennaStatus::Reserved37 => 37, AntennaStatus::Reserved38 => 38, AntennaStatus::Reserved39 => 39, AntennaStatus::Reserved40 => 40, AntennaStatus::Reserved41 => 41, AntennaStatus::Reserved42 => 42, AntennaStatus::Reserved43 => 43, AntennaStatus::Reserved44 => 44, AntennaStatus::Reserved45 => 45, AntennaStatus::Reserved46 => 46, AntennaStatus::Reserved47 => 47, AntennaStatus::Reserved48 => 48, AntennaStatus::Reserved49 => 49, AntennaStatus::Reserved50 => 50, AntennaStatus::Reserved51 => 51, AntennaStatus::Reserved52 => 52, AntennaStatus::Reserved53 => 53, AntennaStatus::Reserved54 => 54, AntennaStatus::Reserved55 => 55, AntennaStatus::Reserved56 => 56, AntennaStatus::Reserved57 => 57, AntennaStatus::Reserved58 => 58, AntennaStatus::Reserved59 => 59, AntennaStatus::Reserved60 => 60, AntennaStatus::Reserved61 => 61, AntennaStatus::Reserved62 => 62, AntennaStatus::Reserved63 => 63, AntennaStatus::Reserved64 => 64, AntennaStatus::Reserved65 => 65, AntennaStatus::Reserved66 => 66, AntennaStatus::Reserved67 => 67, AntennaStatus::Reserved68 => 68, AntennaStatus::Reserved69 => 69, AntennaStatus::Reserved70 => 70, AntennaStatus::Reserved71 => 71, AntennaStatus::Reserved72 => 72, AntennaStatus::Reserved73 => 73, AntennaStatus::Reserved74 => 74, AntennaStatus::Reserved75 => 75, AntennaStatus::Reserved76 => 76, AntennaStatus::Reserved77 => 77, AntennaStatus::Reserved78 => 78, AntennaStatus::Reserved79 => 79, AntennaStatus::Reserved80 => 80, AntennaStatus::Reserved81 => 81, AntennaStatus::Reserved82 => 82, AntennaStatus::Reserved83 => 83, AntennaStatus::Reserved84 => 84, AntennaStatus::Reserved85 => 85, AntennaStatus::Reserved86 => 86, AntennaStatus::Reserved87 => 87, AntennaStatus::Reserved88 => 88, AntennaStatus::Reserved89 => 89, AntennaStatus::Reserved90 => 90, AntennaStatus::Reserved91 => 91, AntennaStatus::Reserved92 => 92, AntennaStatus::Reserved93 => 93, AntennaStatus::Reserved94 => 94, AntennaStatus::Reserved95 => 95, AntennaStatus::Reserved96 => 96, AntennaStatus::Reserved97 => 97, AntennaStatus::Reserved98 => 98, AntennaStatus::Reserved99 => 99, AntennaStatus::Reserved100 => 100, AntennaStatus::Reserved101 => 101, AntennaStatus::Reserved102 => 102, AntennaStatus::Reserved103 => 103, AntennaStatus::Reserved104 => 104, AntennaStatus::Reserved105 => 105, AntennaStatus::Reserved106 => 106, AntennaStatus::Reserved107 => 107, AntennaStatus::Reserved108 => 108, AntennaStatus::Reserved109 => 109, AntennaStatus::Reserved110 => 110, AntennaStatus::Reserved111 => 111, AntennaStatus::Reserved112 => 112, AntennaStatus::Reserved113 => 113, AntennaStatus::Reserved114 => 114, AntennaStatus::Reserved115 => 115, AntennaStatus::Reserved116 => 116, AntennaStatus::Reserved117 => 117, AntennaStatus::Reserved118 => 118, AntennaStatus::Reserved119 => 119, AntennaStatus::Reserved120 => 120, AntennaStatus::Reserved121 => 121, AntennaStatus::Reserved122 => 122, AntennaStatus::Reserved123 => 123, AntennaStatus::Reserved124 => 124, AntennaStatus::Reserved125 => 125, AntennaStatus::Reserved126 => 126, AntennaStatus::Reserved127 => 127, AntennaStatus::Reserved128 => 128, AntennaStatus::Reserved129 => 129, AntennaStatus::Reserved130 => 130, AntennaStatus::Reserved131 => 131, AntennaStatus::Reserved132 => 132, AntennaStatus::Reserved133 => 133, AntennaStatus::Reserved134 => 134, AntennaStatus::Reserved135 => 135, AntennaStatus::Reserved136 => 136, AntennaStatus::Reserved137 => 137, AntennaStatus::Reserved138 => 138, AntennaStatus::Reserved139 => 139, AntennaStatus::Reserved140 => 140, AntennaStatus::Reserved141 => 141, AntennaStatus::Reserved142 => 142, AntennaStatus::Reserved143 => 143, AntennaStatus::Reserved144 => 144, AntennaStatus::Reserved145 => 145, AntennaStatus::Reserved146 => 146, AntennaStatus::Reserved147 => 147, AntennaStatus::Reserved148 => 148, AntennaStatus::Reserved149 => 149, AntennaStatus::Reserved150 => 150, AntennaStatus::Reserved151 => 151, AntennaStatus::Reserved152 => 152, AntennaStatus::Reserved153 => 153, AntennaStatus::Reserved154 => 154, AntennaStatus::Reserved155 => 155, AntennaStatus::Reserved156 => 156, AntennaStatus::Reserved157 => 157, AntennaStatus::Reserved158 => 158, AntennaStatus::Reserved159 => 159, AntennaStatus::Reserved160 => 160, AntennaStatus::Reserved161 => 161, AntennaStatus::Reserved162 => 162, AntennaStatus::Reserved163 => 163, AntennaStatus::Reserved164 => 164, AntennaStatus::Reserved165 => 165, AntennaStatus::Reserved166 => 166, AntennaStatus::Reserved167 => 167, AntennaStatus::Reserved168 => 168, AntennaStatus::Reserved169 => 169, AntennaStatus::Reserved170 => 170, AntennaStatus::Reserved171 => 171, AntennaStatus::Reserved172 => 172, AntennaStatus::Reserved173 => 173, AntennaStatus::Reserved174 => 174, AntennaStatus::Reserved175 => 175, AntennaStatus::Reserved176 => 176, AntennaStatus::Reserved177 => 177, AntennaStatus::Reserved178 => 178, AntennaStatus::Reserved179 => 179, AntennaStatus::Reserved180 => 180, AntennaStatus::Reserved181 => 181, AntennaStatus::Reserved182 => 182, AntennaStatus::Reserved183 => 183, AntennaStatus::Reserved184 => 184, AntennaStatus::Reserved185 => 185, AntennaStatus::Reserved186 => 186, AntennaStatus::Reserved187 => 187, AntennaStatus::Reserved188 => 188, AntennaStatus::Reserved189 => 189, AntennaStatus::Reserved190 => 190, AntennaStatus::Reserved191 => 191, AntennaStatus::Reserved192 => 192, AntennaStatus::Reserved193 => 193, AntennaStatus::Reserved194 => 194, AntennaStatus::Reserved195 => 195, AntennaStatus::Reserved196 => 196, AntennaStatus::Reserved197 => 197, AntennaStatus::Reserved198 => 198, AntennaStatus::Reserved199 => 199, AntennaStatus::Reserved200 => 200, AntennaStatus::Reserved201 => 201, AntennaStatus::Reserved202 => 202, AntennaStatus::Reserved203 => 203, AntennaStatus::Reserved204 => 204, AntennaStatus::Reserved205 => 205, AntennaStatus::Reserved206 => 206, AntennaStatus::Reserved207 => 207, AntennaStatus::Reserved208 => 208, AntennaStatus::Reserved209 => 209, AntennaStatus::Reserved210 => 210, AntennaStatus::Reserved211 => 211, AntennaStatus::Reserved212 => 212, AntennaStatus::Reserved213 => 213, AntennaStatus::Reserved214 => 214, AntennaStatus::Reserved215 => 215, AntennaStatus::Reserved216 => 216, AntennaStatus::Reserved217 => 217, AntennaStatus::Reserved218 => 218, AntennaStatus::Reserved219 => 219, AntennaStatus::Reserved220 => 220, AntennaStatus::Reserved221 => 221, AntennaStatus::Reserved222 => 222, AntennaStatus::Reserved223 => 223, AntennaStatus::Reserved224 => 224, AntennaStatus::Reserved225 => 225, AntennaStatus::Reserved226 => 226, AntennaStatus::Reserved227 => 227, AntennaStatus::Reserved228 => 228, AntennaStatus::Reserved229 => 229, AntennaStatus::Reserved230 => 230, AntennaStatus::Reserved231 => 231, AntennaStatus::Reserved232 => 232, AntennaStatus::Reserved233 => 233, AntennaStatus::Reserved234 => 234, AntennaStatus::Reserved235 => 235, AntennaStatus::Reserved236 => 236, AntennaStatus::Reserved237 => 237, AntennaStatus::Reserved238 => 238, AntennaStatus::Reserved239 => 239, AntennaStatus::Reserved240 => 240, AntennaStatus::Reserved241 => 241, AntennaStatus::Reserved242 => 242, AntennaStatus::Reserved243 => 243, AntennaStatus::Reserved244 => 244, AntennaStatus::Reserved245 => 245, AntennaStatus::Reserved246 => 246, AntennaStatus::Reserved247 => 247, AntennaStatus::Reserved248 => 248, AntennaStatus::Reserved249 => 249, AntennaStatus::Reserved250 => 250, AntennaStatus::Reserved251 => 251, AntennaStatus::Reserved252 => 252, AntennaStatus::Reserved253 => 253, AntennaStatus::Reserved254 => 254, AntennaStatus::Reserved255 => 255 }
}
/// the code of CfgItfmAntennaSettings
pub open spec fn CfgItfmAntennaSettings_code(e: CfgItfmAntennaSettings) -> u8 {
    match e { CfgItfmAntennaSettings::Unknown => 0, CfgItfmAntennaSettings::Active => 1, CfgItfmAntennaSettings::Passive => 2 }
}
/// the code of CfgNav5DynModel
pub open spec fn CfgNav5DynModel_code(e: CfgNav5DynModel) -> u8 {
    match e { CfgNav5DynModel::Portable => 0, CfgNav5DynModel::Stationary => 2, CfgNav5DynModel::Pedestrian => 3, CfgNav5DynModel::Automotive => 4, CfgNav5DynModel::Sea => 5, CfgNav5DynModel::AirborneWithLess1gAcceleration => 6, CfgNav5DynModel::AirborneWithLess2gAcceleration => 7, CfgNav5DynModel::AirborneWith4gAcceleration => 8, CfgNav5DynModel::WristWornWatch => 9, CfgNav5DynModel::Bike => 10 }
}
/// the code of CfgNav5FixMode
pub open spec fn CfgNav5FixMode_code(e: CfgNav5FixMode) -> u8 {
    match e { CfgNav5FixMode::Only2D => 1, CfgNav5FixMode::Only3D => 2, CfgNav5FixMode::Auto2D3D => 3 }
}
/// the code of CfgNav5UtcStandard
pub open spec fn CfgNav5UtcStandard_code(e: CfgNav5UtcStandard) -> u8 {
    match e { CfgNav5UtcStandard::Automatic => 0, CfgNav5UtcStandard::Usno => 3, CfgNav5UtcStandard::UtcSu => 6, CfgNav5UtcStandard::UtcChina => 7 }
}
/// the code of CfgTmode2TimeXferModes
pub open spec fn CfgTmode2TimeXferModes_code(e: CfgTmode2TimeXferModes) -> u8 {
    match e { CfgTmode2TimeXferModes::Disabled => 0, CfgTmode2TimeXferModes::SurveyIn => 1, CfgTmode2TimeXferModes::FixedMode => 2 }
}
/// the code of CfgTp5TimePulseMode
pub open spec fn CfgTp5TimePulseMode_code(e: CfgTp5TimePulseMode) -> u8 {
    match e { CfgTp5TimePulseMode::TimePulse => 0, CfgTp5TimePulseMode::TimePulse2 => 1 }
}
/// the code of GpsFix
pub open spec fn GpsFix_code(e: GpsFix) -> u8 {
    match e { GpsFix::NoFix => 0, GpsFix::DeadReckoningOnly => 1, GpsFix::Fix2D => 2, GpsFix::Fix3D => 3, GpsFix::GPSPlusDeadReckoning => 4, GpsFix::TimeOnlyFix => 5, GpsFix::Reserved6 => 6, GpsFix::Reserved7 => 7, GpsFix::Reserved8 => 8, GpsFix::Reserved9 => 9, GpsFix::Reserved10 => 10, GpsFix::Reserved11 => 11, GpsFix::Reserved12 => 12, GpsFix::Reserved13 => 13, GpsFix::Reserved14 => 14, GpsFix::Reserved15 => 15, GpsFix::Reserved16 => 16, GpsFix::Reserved17 => 17, GpsFix::Reserved18 => 18, GpsFix::Reserved19 => 19, GpsFix::Reserved20 => 20, GpsFix::Reserved21 => 21, GpsFix::Reserved22 => 22, GpsFix::Reserved23 => 23, GpsFix::Reserved24 => 24, GpsFix::Reserved25 => 25, GpsFix::Reserved26 => 26, GpsFix::Reserved27 => 27, GpsFix::Reserved28 => 28, GpsFix::Reserved29 => 29, GpsFix::Reserved30 => 30, GpsFix::Reserved31 => 31, GpsFix::Reserved32 => 32, GpsFix::Reserved33 => 33, GpsFix::Reserved34 => 34, GpsFix::Reserved35 => 35, GpsFix::Reserved36 => 36, GpsFix::Reserved37 => 37, GpsFix::Reserved38 => 38, GpsFix::Reserved39 => 39, GpsFix::Reserved40 => 40, GpsFix::Reserved41 => 41, GpsFix::Reserved42 => 42, GpsFix::Reserved43 => 43, GpsFix::Reserved44 => 44, GpsFix::Reserved45 => 45, GpsFix::Reserved46 => 46, GpsFix::Reserved47 => 47, GpsFix::Reserved48 => 48, GpsFix::Reserved49 => 49, GpsFix::Reserved50 => 50, GpsFix::Reserved51 => 51, GpsFix::Reserved52 => 52, GpsFix::Reserved53 => 53, GpsFix::Reserved54 => 54, GpsFix::Reserved55 => 55, GpsFix::Reserved56 => 56, GpsFix::Reserved57 => 57, GpsFix::Reserved58 => 58, GpsFix::Reserved59 => 59, GpsFix::Reserved60 => 60, GpsFix::Reserved61 => 61, GpsFix::Reserved62 => 62, GpsFix::Reserved63 => 63, GpsFix::Reserved64 => 64, GpsFix::Reserved65 => 65, GpsFix::Reserved66 => 66, GpsFix::Reserved67 => 67, GpsFix::Reserved68 => 68, GpsFix::Reserved69 => 69, GpsFix::Reserved70 => 70, GpsFix::Reserved71 => 71, GpsFix::Reserved72 => 72, GpsFix::Reserved73 => 73, GpsFix::Reserved74 => 74, GpsFix::Reserved75 => 75, GpsFix::Reserved76 => 76, GpsFix::Reserved77 => 77, GpsFix::Reserved78 => 78, GpsFix::Reserved79 => 79, GpsFix::Reserved80 => 80, GpsFix::Reserved81 => 81, GpsFix::Reserved82 => 82, GpsFix::Reserved83 => 83, GpsFix::Reserved84 => 84, GpsFix::Reserved85 => 85, GpsFix::Reserved86 => 86, GpsFix::Reserved87 => 87, GpsFix::Reserved88 => 88, GpsFix::Reserved89 => 89, GpsFix::Reserved90 => 90, GpsFix::Reserved91 => 91, GpsFix::Reserved92 => 92, GpsFix::Reserved93 => 93, GpsFix::Reserved94 => 94, GpsFix::Reserved95 => 95, GpsFix::Reserved96 => 96, GpsFix::Reserved97 => 97, GpsFix::Reserved98 => 98, GpsFix::Reserved99 => 99, GpsFix::Reserved100 => 100, GpsFix::Reserved101 => 101, GpsFix::Reserved102 => 102, GpsFix::Reserved103 => 103, GpsFix::Reserved104 => 104, GpsFix::Reserved105 => 105, GpsFix::Reserved106 => 106, GpsFix::Reserved107 => 107, GpsFix::Reserved108 => 108, GpsFix::Reserved109 => 109, GpsFix::Reserved110 => 110, GpsFix::Reserved111 => 111, GpsFix::Reserved112 => 112, GpsFix::Reserved113 => 113, GpsFix::Reserved114 => 114, GpsFix::Reserved115 => 115, GpsFix::Reserved116 => 116, GpsFix::Reserved117 => 117, GpsFix::Reserved118 => 118, GpsFix::Reserved119 => 119, GpsFix::Reserved120 => 120, GpsFix::Reserved121 => 121, GpsFix::Reserved122 => 122, GpsFix::Reserved123 => 123, GpsFix::Reserved124 => 124, GpsFix::Reserved125 => 125, GpsFix::Reserved126 => 126, GpsFix::Reserved127 => 127, GpsFix::Reserved128 => 128, GpsFix::Reserved129 => 129, GpsFix::Reserved130 => 130, GpsFix::Reserved131 => 131, GpsFix::Reserved132 => 132, GpsFix::Reserved133 => 133, GpsFix::Reserved134 => 134, GpsFix::Reserved135 => 135, GpsFix::Reserved136 => 136, GpsFix::Reserved137 => 137, GpsFix::Reserved138 => 138, GpsFix::Reserved139 => 139, GpsFix::Reserved140 => 140, GpsFix::Reserved141 => 141, GpsFix::Reserved142 => 142, GpsFix::Reserved143 => 143, GpsFix::Reserved144 => 144, GpsFix::Reserved145 => 145, GpsFix::Reserved146 => 146, GpsFix::Reserved147 => 147, GpsFix::Reserved148 => 148, GpsFix::Reserved149 => 149, GpsFix::Reserved150 => 150, GpsFix::Reserved151 => 151, GpsFix::Reserved152 => 152, GpsFix::Reserved153 => 153, GpsFix::Reserved154 => 154, GpsFix::Reserved155 => 155, GpsFix::Reserved156 => 156, GpsFix::Reserved157 => 157, GpsFix::Reserved158 => 158, GpsFix::Reserved159 => 159, GpsFix::Reserved160 => 160, GpsFix::Reserved161 => 161, GpsFix::Reserved162 => 162, GpsFix::Reserved163 => 163, GpsFix::Reserved164 => 164, GpsFix::Reserved165 => 165, GpsFix::Reserved166 => 166, GpsFix::Reserved167 => 167, GpsFix::Reserved168 => 168, GpsFix::Reserved169 => 169, GpsFix::Reserved170 => 170, GpsFix::Reserved171 => 171, GpsFix::Reserved172 => 172, GpsFix::Reserved173 => 173, GpsFix::Reserved174 => 174, GpsFix::Reserved175 => 175, GpsFix::Reserved176 => 176, GpsFix::Reserved177 => 177, GpsFix::Reserved178 => 178, GpsFix::Reserved179 => 179, GpsFix::Reserved180 => 180, GpsFix::Reserved181 => 181, GpsFix::Reserved182 => 182, GpsFix::Reserved183 => 183, GpsFix::Reserved184 => 184, GpsFix::Reserved185 => 185, GpsFix::Reserved186 => 186, GpsFix::Reserved187 => 187, GpsFix::Reserved188 => 188, GpsFix::Reserved189 => 189, GpsFix::Reserved190 => 190, GpsFix::Reserved191 => 191, GpsFix::Reserved192 => 192, GpsFix::Reserved193 => 193, GpsFix::Reserved194 => 194, GpsFix::Reserved195 => 195, GpsFix::Reserved196 => 196, GpsFix::Reserved197 => 197, GpsFix::Reserved198 => 198, GpsFix::Reserved199 => 199, GpsFix::Reserved200 => 200, GpsFix::Reserved201 => 201, GpsFix::Reserved202 => 202, GpsFix::Reserved203 => 203, GpsFix::Reserved204 => 204, GpsFix::Reserved205 => 205, GpsFix::Reserved206 => 206, GpsFix::Reserved207 => 207, GpsFix::Reserved208 => 208, GpsFix::Reserved209 => 209, GpsFix::Reserved210 => 210, GpsFix::Reserved211 => 211, GpsFix::Reserved212 => 212, GpsFix::Reserved213 => 213, GpsFix::Reserved214 => 214, GpsFix::Reserved215 => 215, GpsFix::Reserved216 => 216, GpsFix::Reserved217 => 217, GpsFix::Reserved218 => 218, GpsFix::Reserved219 => 219, GpsFix::Reserved220 => 220, GpsFix::Reserved221 => 221, GpsFix::Reserved222 => 222, GpsFix::Reserved223 => 223, GpsFix::Reserved224 => 224, GpsFix::Reserved225 => 225, GpsFix::Reserved226 => 226, GpsFix::Reserved227 => 227, GpsFix::Reserved228 => 228, GpsFix::Reserved229 => 229, GpsFix::Reserved230 => 230, GpsFix::Reserved231 => 231, GpsFix::Reserved232 => 232, GpsFix::Reserved233 => 233, GpsFix::Reserved234 => 234, GpsFix::Reserved235 => 235, GpsFix::Reserved236 => 236, GpsFix::Reserved237 => 237, GpsFix::Reserved238 => 238, GpsFix::Reserved239 => 239, GpsFix::Reserved240 => 240, GpsFix::Reserved241 => 241, GpsFix::Reserved242 => 242, GpsFix::Reserved243 => 243, GpsFix::Reserved244 => 244, GpsFix::Reserved245 => 245, GpsFix::Reserved246 => 246, GpsFix::Reserved247 => 247, GpsFix::Reserved248 => 248, GpsFix::Reserved249 => 249, GpsFix::Reserved250 => 250, GpsFix::Reserved251 => 251, GpsFix::Reserved252 => 252, GpsFix::Reserved253 => 253, GpsFix::Reserved254 => 254, GpsFix::Reserved255 => 255 }
}
/// the code of I2cPortId
pub open spec fn I2cPortId_code(e: I2cPortId) -> u8 {
    match e { I2cPortId::I2c => 0 }
}
/// the code of MsgAckInfoCode
pub open spec fn MsgAckInfoCode_code(e: MsgAckInfoCode) -> u8 {
    match e { MsgAckInfoCode::Accepted => 0, MsgAckInfoCode::RejectedNoTime => 1, MsgAckInfoCode::RejectedBadVersion => 2, MsgAckInfoCode::RejectedBadSize => 3, MsgAckInfoCode::RejectedDBStoreFailed => 4, MsgAckInfoCode::RejectedNotReady => 5, MsgAckInfoCode::RejectedUnknownType => 6, MsgAckInfoCode::Reserved7 => 7, MsgAckInfoCode::Reserved8 => 8, MsgAckInfoCode::Reserved9 => 9, MsgAckInfoCode::Reserved10 => 10, MsgAckInfoCode::Reserved11 => 11, MsgAckInfoCode::Reserved12 => 12, MsgAckInfoCode::Reserved13 => 13, MsgAckInfoCode::Reserved14 => 14, MsgAckInfoCode::Reserved15 => 15, MsgAckInfoCode::Reserved16 => 16, MsgAckInfoCode::Reserved17 => 17, MsgAckInfoCode::Reserved18 => 18, MsgAckInfoCode::Reserved19 => 19, MsgAckInfoCode::Reserved20 => 20, MsgAckInfoCode::Reserved21 => 21, MsgAckInfoCode::Reserved22 => 22, MsgAckInfoCode::Reserved23 => 23, MsgAckInfoCode::Reserved24 => 24, MsgAckInfoCode::Reserved25 => 25, MsgAckInfoCode::Reserved26 => 26, MsgAckInfoCode::Reserved27 => 27, MsgAckInfoCode::Reserved28 => 28, MsgAckInfoCode::Reserved29 => 29, MsgAckInfoCode::Reserved30 => 30, MsgAckInfoCode::Reserved31 => 31, MsgAckInfoCode::Reserved32 => 32, MsgAckInfoCode::Reserved33 => 33, MsgAckInfoCode::Reserved34 => 34, MsgAckInfoCode::Reserved35 => 35, MsgAckInfoCode::Reserved36 => 36, MsgAckInfoCode::Reserved37 => 37, MsgAckInfoCode::Reserved38 => 38, MsgAckInfoCode::Reserved39 => 39, MsgAckInfoCode::Reserved40 => 40, MsgAckInfoCode::Reserved41 => 41, MsgAckInfoCode::Reserved42 => 42, MsgAckInfoCode::Reserved43 => 43, MsgAckInfoCode::Reserved44 => 44, MsgAckInfoCode::Reserved45 => 45, MsgAckInfoCode::Reserved46 => 46, MsgAckInfoCode::Reserved47 => 47, MsgAckInfoCode::Reserved48 => 48, MsgAckInfoCode::Reserved49 => 49, MsgAckInfoCode::Reserved50 => 50, MsgAckInfoCode::Reserved51 => 51, MsgAckInfoCode::Reserved52 => 52, MsgAckInfoCode::Reserved53 => 53, MsgAckInfoCode::Reserved54 => 54, MsgAckInfoCode::Reserved55 => 55, MsgAckInfoCode::Reserved56 => 56, MsgAckInfoCode::Reserved57 => 57, MsgAckInfoCode::Reserved58 => 58, MsgAckInfoCode::Reserved59 => 59, MsgAckInfoCode::Reserved60 => 60, MsgAckInfoCode::Reserved61 => 61, MsgAckInfoCode::Reserved62 => 62, MsgAckInfoCode::Reserved63 => 63, MsgAckInfoCode::Reserved64 => 64, MsgAckInfoCode::Reserved65 => 65, MsgAckInfoCode::Reserved66 => 66, MsgAckInfoCode::Reserved67 => 67, MsgAckInfoCode::Reserved68 => 68, MsgAckInfoCode::Reserved69 => 69, MsgAckInfoCode::Reserved70 => 70, MsgAckInfoCode::Reserved71 => 71, MsgAckInfoCode::Reserved72 => 72, MsgAckInfoCode::Reserved73 => 73, MsgAckInfoCode::Reserved74 => 74, MsgAckInfoCode::Reserved75 => 75, MsgAckInfoCode::Reserved76 => 76, MsgAckInfoCode::Reserved77 => 77, MsgAckInfoCode::Reserved78 => 78, MsgAckInfoCode::Reserved79 => 79, MsgAckInfoCode::Reserved80 => 80, MsgAckInfoCode::Reserved81 => 81, MsgAckInfoCode::Reserved82 => 82, MsgAckInfoCode::Reserved83 => 83, MsgAckInfoCode::Reserved84 => 84, MsgAckInfoCode::Reserved85 => 85, MsgAckInfoCode::Reserved86 => 86, MsgAckInfoCode::Reserved87 => 87, MsgAckInfoCode::Reserved88 => 88, MsgAckInfoCode::Reserved89 => 89, MsgAckInfoCode::Reserved90 => 90, MsgAckInfoCode::Reserved91 => 91, MsgAckInfoCode::Reserved92 => 92, MsgAckInfoCode::Reserved93 => 93, MsgAckInfoCode::Reserved94 => 94, MsgAckInfoCode::Reserved95 => 95, MsgAckInfoCode::Reserved96 => 96, MsgAckInfoCode::Reserved97 => 97, MsgAckInfoCode::Reserved98 => 98, MsgAckInfoCode::Reserved99 => 99, MsgAckInfoCode::Reserved100 => 100, MsgAckInfoCode::Reserved101 => 101, MsgAckInfoCode::Reserved102 => 102, MsgAckInfoCode::Reserved103 => 103, MsgAckInfoCode::Reserved104 => 104, MsgAckInfoCode::Reserved105 => 105, MsgAckInfoCode::Reserved106 => 106, MsgAckInfoCode::Reserved107 => 107, MsgAckInfoCode::Reserved108 => 108, MsgAckInfoCode::Reserved109 => 109, MsgAckInfoCode::Reserved110 => 110, MsgAckInfoCode::Reserved111 => 111, MsgAckInfoCode::Reserved112 => 112, MsgAckInfoCode::Reserved113 => 113, MsgAckInfoCode::Reserved114 => 114, MsgAckInfoCode::Reserved115 => 115, MsgAckInfoCode::Reserved116 => 116, MsgAckInfoCode::Reserved117 => 117, MsgAckInfoCode::Reserved118 => 118, MsgAckInfoCode::Reserved119 => 119, MsgAckInfoCode::Reserved120 => 120, MsgAckInfoCode::Reserved121 => 121, MsgAckInfoCode::Reserved122 => 122, MsgAckInfoCode::Reserved123 => 123, MsgAckInfoCode::Reserved124 => 124, MsgAckInfoCode::Reserved125 => 125, MsgAckInfoCode::Reserved126 => 126, MsgAckInfoCode::Reserved127 => 127, MsgAckInfoCode::Reserved128 => 128, MsgAckInfoCode::Reserved129 => 129, MsgAckInfoCode::Reserved130 => 130, MsgAckInfoCode::Reserved131 => 131, MsgAckInfoCode::Reserved132 => 132, MsgAckInfoCode::Reserved133 => 133, MsgAckInfoCode::Reserved134 => 134, MsgAckInfoCode::Reserved135 => 135, MsgAckInfoCode::Reserved136 => 136, MsgAckInfoCode::Reserved137 => 137, MsgAckInfoCode::Reserved138 => 138, MsgAckInfoCode::Reserved139 => 139, MsgAckInfoCode::Reserved140 => 140, MsgAckInfoCode::Reserved141 => 141, MsgAckInfoCode::Reserved142 => 142, MsgAckInfoCode::Reserved143 => 143, MsgAckInfoCode::Reserved144 => 144, MsgAckInfoCode::Reserved145 => 145, MsgAckInfoCode::Reserved146 => 146, MsgAckInfoCode::Reserved147 => 147, MsgAckInfoCode::Reserved148 => 148, MsgAckInfoCode::Reserved149 => 149, MsgAckInfoCode::Reserved150 => 150, MsgAckInfoCode::Reserved151 => 151, MsgAckInfoCode::Reserved152 => 152, MsgAckInfoCode::Reserved153 => 153, MsgAckInfoCode::Reserved154 => 154, MsgAckInfoCode::Reserved155 => 155, MsgAckInfoCode::Reserved156 => 156, MsgAckInfoCode::Reserved157 => 157, MsgAckInfoCode::Reserved158 => 158, MsgAckInfoCode::Reserved159 => 159, MsgAckInfoCode::Reserved160 => 160, MsgAckInfoCode::Reserved161 => 161, MsgAckInfoCode::Reserved162 => 162, MsgAckInfoCode::Reserved163 => 163, MsgAckInfoCode::Reserved164 => 164, MsgAckInfoCode::Reserved165 => 165, MsgAckInfoCode::Reserved166 => 166, MsgAckInfoCode::Reserved167 => 167, MsgAckInfoCode::Reserved168 => 168, MsgAckInfoCode::Reserved169 => 169, MsgAckInfoCode::Reserved170 => 170, MsgAckInfoCode::Reserved171 => 171, MsgAckInfoCode::Reserved172 => 172, MsgAckInfoCode::Reserved173 => 173, MsgAckInfoCode::Reserved174 => 174, MsgAckInfoCode::Reserved175 => 175, MsgAckInfoCode::Reserved176 => 176, MsgAckInfoCode::Reserved177 => 177, MsgAckInfoCode::Reserved178 => 178, MsgAckInfoCode::Reserved179 => 179, MsgAckInfoCode::Reserved180 => 180, MsgAckInfoCode::Reserved181 => 181, MsgAckInfoCode::Reserved182 => 182, MsgAckInfoCode::Reserved183 => 183, MsgAckInfoCode::Reserved184 => 184, MsgAckInfoCode::Reserved185 => 185, MsgAckInfoCode::Reserved186 => 186, MsgAckInfoCode::Reserved187 => 187, MsgAckInfoCode::Reserved188 => 188, MsgAckInfoCode::Reserved189 => 189, MsgAckInfoCode::Reserved190 => 190, MsgAckInfoCode::Reserved191 => 191, MsgAckInfoCode::Reserved192 => 192, MsgAckInfoCode::Reserved193 => 193, MsgAckInfoCode::Reserved194 => 194, MsgAckInfoCode::Reserved195 => 195, MsgAckInfoCode::Reserved196 => 196, MsgAckInfoCode::Reserved197 => 197, MsgAckInfoCode::Reserved198 => 198, MsgAckInfoCode::Reserved199 => 199, MsgAckInfoCode::Reserved200 => 200, MsgAckInfoCode::Reserved201 => 201, MsgAckInfoCode::Reserved202 => 202, MsgAckInfoCode::Reserved203 => 203, MsgAckInfoCode::Reserved204 => 204, MsgAckInfoCode::Reserved205 => 205, MsgAckInfoCode::Reserved206 => 206, MsgAckInfoCode::Reserved207 => 207, MsgAckInfoCode::Reserved208 => 208, MsgAckInfoCode::Reserved209 => 209, MsgAckInfoCode::Reserved210 => 210, MsgAckInfoCode::Reserved211 => 211, MsgAckInfoCode::Reserved212 => 212, MsgAckInfoCode::Reserved213 => 213, MsgAckInfoCode::Reserved214 => 214, MsgAckInfoCode::Reserved215 => 215, MsgAckInfoCode::Reserved216 => 216, MsgAckInfoCode::Reserved217 => 217, MsgAckInfoCode::Reserved218 => 218, MsgAckInfoCode::Reserved219 => 219, MsgAckInfoCode::Reserved220 => 220, MsgAckInfoCode::Reserved221 => 221, MsgAckInfoCode::Reserved222 => 222, MsgAckInfoCode::Reserved223 => 223, MsgAckInfoCode::Reserved224 => 224, MsgAckInfoCode::Reserved225 => 225, MsgAckInfoCode::Reserved226 => 226, MsgAckInfoCode::Reserved227 => 227, MsgAckInfoCode::Reserved228 => 228, MsgAckInfoCode::Reserved229 => 229, MsgAckInfoCode::Reserved230 => 230, MsgAckInfoCode::Reserved231 => 231, MsgAckInfoCode::Reserved232 => 232, MsgAckInfoCode::Reserved233 => 233, MsgAckInfoCode::Reserved234 => 234, MsgAckInfoCode::Reserved235 => 235, MsgAckInfoCode::Reserved236 => 236, MsgAckInfoCode::Reserved237 => 237, MsgAckInfoCode::Reserved238 => 238, MsgAckInfoCode::Reserved239 => 239, MsgAckInfoCode::Reserved240 => 240, MsgAckInfoCode::Reserved241 => 241, MsgAckInfoCode::Reserved242 => 242, MsgAckInfoCode::Reserved243 => 243, MsgAckInfoCode::Reserved244 => 244, MsgAckInfoCode::Reserved245 => 245, MsgAckInfoCode::Reserved246 => 246, MsgAckInfoCode::Reserved247 => 247, MsgAckInfoCode::Reserved248 => 248, MsgAckInfoCode::Reserved249 => 249, MsgAckInfoCode::Reserved250 => 250, MsgAckInfoCode::Reserved251 => 251, MsgAckInfoCode::Reserved252 => 252, MsgAckInfoCode::Reserved253 => 253, MsgAckInfoCode::Reserved254 => 254, MsgAckInfoCode::Reserved255 => 255 }
}
/// the code of NavStatusFlags2
pub open spec fn NavStatusFlags2_code(e: NavStatusFlags2) -> u8 {
    match e { NavStatusFlags2::Acquisition => 0, NavStatusFlags2::Tracking => 1, NavStatusFlags2::PowerOptimizedTracking => 2, NavStatusFlags2::Inactive => 3, NavStatusFlags2::Reserved4 => 4, NavStatusFlags2::Reserved5 => 5, NavStatusFlags2::Reserved6 => 6, NavStatusFlags2::Reserved7 => 7, NavStatusFlags2::Reserved8 => 8, NavStatusFlags2::Reserved9 => 9, NavStatusFlags2::Reserved10 => 10, NavStatusFlags2::Reserved11 => 11, NavStatusFlags2::Reserved12 => 12, NavStatusFlags2::Reserved13 => 13, NavStatusFlags2::Reserved14 => 14, NavStatusFlags2::Reserved15 => 15, NavStatusFlags2::Reserved16 => 16, NavStatusFlags2::Reserved17 => 17, NavStatusFlags2::Reserved18 => 18, NavStatusFlags2::Reserved19 => 19, NavStatusFlags2::Reserved20 => 20, NavStatusFlags2::Reserved21 => 21, NavStatusFlags2::Reserved22 => 22, NavStatusFlags2::Reserved23 => 23, NavStatusFlags2::Reserved24 => 24, NavStatusFlags2::Reserved25 => 25, NavStatusFlags2::Reserved26 => 26, NavStatusFlags2::Reserved27 => 27, NavStatusFlags2::Reserved28 => 28, NavStatusFlags2::Reserved29 => 29, NavStatusFlags2::Reserved30 => 30, NavStatusFlags2::Reserved31 => 31, NavStatusFlags2::Reserved32 => 32, NavStatusFlags2::Reserved33 => 33, NavStatusFlags2::Reserved34 => 34, NavStatusFlags2::Reserved35 => 35, NavStatusFlags2::Reserved36 => 36, NavStatusFlags2::Reserved37 => 37, NavStatusFlags2::Reserved38 => 38, NavStatusFlags2::Reserved39 => 39, NavStatusFlags2::Reserved40 => 40, NavStatusFlags2::Reserved41 => 41, NavStatusFlags2::Reserved42 => 42, NavStatusFlags2::Reserved43 => 43, NavStatusFlags2::Reserved44 => 44, NavStatusFlags2::Reserved45 => 45, NavStatusFlags2::Reserved46 => 46, NavStatusFlags2::Reserved47 => 47, NavStatusFlags2::Reserved48 => 48, NavStatusFlags2::Reserved49 => 49, NavStatusFlags2::Reserved50 => 50, NavStatusFlags2::Reserved51 => 51, NavStatusFlags2::Reserved52 => 52, NavStatusFlags2::Reserved53 => 53, NavStatusFlags2::Reserved54 => 54, NavStatusFlags2::Reserved55 => 55, NavStatusFlags2::Reserved56 => 56, NavStatusFlags2::Reserved57 => 57, NavStatusFlags2::Reserved58 => 58, NavStatusFlags2::Reserved59 => 59, NavStatusFlags2::Reserved60 => 60, NavStatusFlags2::Reserved61 => 61, NavStatusFlags2::Reserved62 => 62, NavStatusFlags2::Reserved63 => 63, NavStatusFlags2::Reserved64 => 64, NavStatusFlags2::Reserved65 => 65, NavStatusFlags2::Reserved66 => 66, NavStatusFlags2::Reserved67 => 67, NavStatusFlags2::Reserved68 => 68, NavStatusFlags2::Reserved69 => 69, NavStatusFlags2::Reserved70 => 70, NavStatusFlags2::Reserved71 => 71, NavStatusFlags2::Reserved72 => 72, NavStatusFlags2::Reserved73 => 73, NavStatusFlags2::Reserved74 => 74, NavStatusFlags2::Reserved75 => 75, NavStatusFlags2::Reserved76 => 76, NavStatusFlags2::Reserved77 => 77, NavStatusFlags2::Reserved78 => 78, NavStatusFlags2::Reserved79 => 79, NavStatusFlags2::Reserved80 => 80, NavStatusFlags2::Reserved81 => 81, NavStatusFlags2::Reserved82 => 82, NavStatusFlags2::Reserved83 => 83, NavStatusFlags2::Reserved84 => 84, NavStatusFlags2::Reserved85 => 85, NavStatusFlags2::Reserved86 => 86, NavStatusFlags2::Reserved87 => 87, NavStatusFlags2::Reserved88 => 88, NavStatusFlags2::Reserved89 => 89, NavStatusFlags2::Reserved90 => 90, NavStatusFlags2::Reserved91 => 91, NavStatusFlags2::Reserved92 => 92, NavStatusFlags2::Reserved93 => 93, NavStatusFlags2::Reserved94 => 94, NavStatusFlags2::Reserved95 => 95, NavStatusFlags2::Reserved96 => 96, NavStatusFlags2::Reserved97 => 97, NavStatusFlags2::Reserved98 => 98, NavStatusFlags2::Reserved99 => 99, NavStatusFlags2::Reserved100 => 100, NavStatusFlags2::Reserved101 => 101, NavStatusFlags2::Reserved102 => 102, NavStatusFlags2::Reserved103 => 103, NavStatusFlags2::Reserved104 => 104, NavStatusFlags2::Reserved105 => 105, NavStatusFlags2::Reserved106 => 106, NavStatusFlags2::Reserved107 => 107, NavStatusFlags2::Reserved108 => 108, NavStatusFlags2::Reserved109 => 109, NavStatusFlags2::Reserved110 => 110, NavStatusFlags2::Reserved111 => 111, NavStatusFlags2::Reserved112 => 112, NavStatusFlags2::Reserved113 => 113, NavStatusFlags2::Reserved114 => 114, NavStatusFlags2::Reserved115 => 115, NavStatusFlags2::Reserved116 => 116, NavStatusFlags2::Reserved117 => 117, NavStatusFlags2::Reserved118 => 118, NavStatusFlags2::Reserved119 => 119, NavStatusFlags2::Reserved120 => 120, NavStatusFlags2::Reserved121 => 121, NavStatusFlags2::Reserved122 => 122, NavStatusFlags2::Reserved123 => 123, NavStatusFlags2::Reserved124 => 124, NavStatusFlags2::Reserved125 => 125, NavStatusFlags2::Reserved126 => 126, NavStatusFlags2::Reserved127 => 127, NavStatusFlags2::Reserved128 => 128, NavStatusFlags2::Reserved129 => 129, NavStatusFlags2::Reserved130 => 130, NavStatusFlags2::Reserved131 => 131, NavStatusFlags2::Reserved132 => 132, NavStatusFlags2::Reserved133 => 133, NavStatusFlags2::Reserved134 => 134, NavStatusFlags2::Reserved135 => 135, NavStatusFlags2::Reserved136 => 136, NavStatusFlags2::Reserved137 => 137, NavStatusFlags2::Reserved138 => 138, NavStatusFlags2::Reserved139 => 139, NavStatusFlags2::Reserved140 => 140, NavStatusFlags2::Reserved141 => 141, NavStatusFlags2::Reserved142 => 142, NavStatusFlags2::Reserved143 => 143, NavStatusFlags2::Reserved144 => 144, NavStatusFlags2::Reserved145 => 145, NavStatusFlags2::Reserved146 => 146, NavStatusFlags2::Reserved147 => 147, NavStatusFlags2::Reserved148 => 148, NavStatusFlags2::Reserved149 => 149, NavStatusFlags2::Reserved150 => 150, NavStatusFlags2::Reserved151 => 151, NavStatusFlags2::Reserved152 => 152, NavStatusFlags2::Reserved153 => 153, NavStatusFlags2::Reserved154 => 154, NavStatusFlags2::Reserved155 => 155, NavStatusFlags2::Reserved156 => 156, NavStatusFlags2::Reserved157 => 157, NavStatusFlags2::Reserved158 => 158, NavStatusFlags2::Reserved159 => 159, NavStatusFlags2::Reserved160 => 160, NavStatusFlags2::Reserved161 => 161, NavStatusFlags2::Reserved162 => 162, NavStatusFlags2::Reserved163 => 163, NavStatusFlags2::Reserved164 => 164, NavStatusFlags2::Reserved165 => 165, NavStatusFlags2::Reserved166 => 166, NavStatusFlags2::Reserved167 => 167, NavStatusFlags2::Reserved168 => 168, NavStatusFlags2::Reserved169 => 169, NavStatusFlags2::Reserved170 => 170, NavStatusFlags2::Reserved171 => 171, NavStatusFlags2::Reserved172 => 172, NavStatusFlags2::Reserved173 => 173, NavStatusFlags2::Reserved174 => 174, NavStatusFlags2::Reserved175 => 175, NavStatusFlags2::Reserved176 => 176, NavStatusFlags2::Reserved177 => 177, NavStatusFlags2::Reserved178 => 178, NavStatusFlags2::Reserved179 => 179, NavStatusFlags2::Reserved180 => 180, NavStatusFlags2::Reserved181 => 181, NavStatusFlags2::Reserved182 => 182, NavStatusFlags2::Reserved183 => 183, NavStatusFlags2::Reserved184 => 184, NavStatusFlags2::Reserved185 => 185, NavStatusFlags2::Reserved186 => 186, NavStatusFlags2::Reserved187 => 187, NavStatusFlags2::Reserved188 => 188, NavStatusFlags2::Reserved189 => 189, NavStatusFlags2::Reserved190 => 190, NavStatusFlags2::Reserved191 => 191, NavStatusFlags2::Reserved192 => 192, NavStatusFlags2::Reserved193 => 193, NavStatusFlags2::Reserved194 => 194, NavStatusFlags2::Reserved195 => 195, NavStatusFlags2::Reserved196 => 196, NavStatusFlags2::Reserved197 => 197, NavStatusFlags2::Reserved198 => 198, NavStatusFlags2::Reserved199 => 199, NavStatusFlags2::Reserved200 => 200, NavStatusFlags2::Reserved201 => 201, NavStatusFlags2::Reserved202 => 202, NavStatusFlags2::Reserved203 => 203, NavStatusFlags2::Reserved204 => 204, NavStatusFlags2::Reserved205 => 205, NavStatusFlags2::Reserved206 => 206, NavStatusFlags2::Reserved207 => 207, NavStatusFlags2::Reserved208 => 208, NavStatusFlags2::Reserved209 => 209, NavStatusFlags2::Reserved210 => 210, NavStatusFlags2::Reserved211 => 211, NavStatusFlags2::Reserved212 => 212, NavStatusFlags2::Reserved213 => 213, NavStatusFlags2::Reserved214 => 214, NavStatusFlags2::Reserved215 => 215, NavStatusFlags2::Reserved216 => 216, NavStatusFlags2::Reserved217 => 217, NavStatusFlags2::Reserved218 => 218, NavStatusFlags2::Reserved219 => 219, NavStatusFlags2::Reserved220 => 220, NavStatusFlags2::Reserved221 => 221, NavStatusFlags2::Reserved222 => 222, NavStatusFlags2::Reserved223 => 223, NavStatusFlags2::Reserved224 => 224, NavStatusFlags2::Reserved225 => 225, NavStatusFlags2::Reserved226 => 226, NavStatusFlags2::Reserved227 => 227, NavStatusFlags2::Reserved228 => 228, NavStatusFlags2::Reserved229 => 229, NavStatusFlags2::Reserved230 => 230, NavStatusFlags2::Reserved231 => 231, NavStatusFlags2::Reserved232 => 232, NavStatusFlags2::Reserved233 => 233, NavStatusFlags2::Reserved234 => 234, NavStatusFlags2::Reserved235 => 235, NavStatusFlags2::Reserved236 => 236, NavStatusFlags2::Reserved237 => 237, NavStatusFlags2::Reserved238 => 238, NavStatusFlags2::Reserved239 => 239, NavStatusFlags2::Reserved240 => 240, NavStatusFlags2::Reserved241 => 241, NavStatusFlags2::Reserved242 => 242, NavStatusFlags2::Reserved243 => 243, NavStatusFlags2::Reserved244 => 244, NavStatusFlags2::Reserved245 => 245, NavStatusFlags2::Reserved246 => 246, NavStatusFlags2::Reserved247 => 247, NavStatusFlags2::Reserved248 => 248, NavStatusFlags2::Reserved249 => 249, NavStatusFlags2::Reserved250 => 250, NavStatusFlags2::Reserved251 => 251, NavStatusFlags2::Reserved252 => 252, NavStatusFlags2::Reserved253 => 253, NavStatusFlags2::Reserved254 => 254, NavStatusFlags2::Reserved255 => 255 }
}
/// the code of OdoProfile
pub open spec fn OdoProfile_code(e: OdoProfile) -> u8 {
    match e { OdoProfile::Running => 0, OdoProfile::Cycling => 1, OdoProfile::Swimming => 2, OdoProfile::Car => 3, OdoProfile::Custom => 4 }
}
/// the code of SpiPortId
pub open spec fn SpiPortId_code(e: SpiPortId) -> u8 {
    match e { SpiPortId::Spi => 4 }
}
/// the code of UartPortId
pub open spec fn UartPortId_code(e: UartPortId) -> u8 {
    match e { UartPortId::Uart1 => 1, UartPortId::Uart2 => 2, UartPortId::Usb => 3 }
}
pub struct AntFlags { pub b: u16 }
impl AntFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
pub struct CfgInfMask { pub b: u8 }
impl CfgInfMask {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct CfgLayer { pub b: u8 }
impl CfgLayer {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct CfgNav5Params { pub b: u16 }
impl CfgNav5Params {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
pub struct CfgNavX5Params1 { pub b: u16 }
impl CfgNavX5Params1 {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
pub struct CfgNavX5Params2 { pub b: u32 }
impl CfgNavX5Params2 {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u32) ensures r == self.b, { unimplemented!() }
}
pub struct CfgTmode2Flags { pub b: u16 }
impl CfgTmode2Flags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
pub struct CfgTmode3Flags { pub b: u8 }
impl CfgTmode3Flags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct CfgTmode3RcvrMode { pub b: u8 }
impl CfgTmode3RcvrMode {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct CfgTp5Flags { pub b: u32 }
impl CfgTp5Flags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u32) ensures r == self.b, { unimplemented!() }
}
pub struct EsfInsBitFlags { pub b: u32 }
impl EsfInsBitFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u32) ensures r == self.b, { unimplemented!() }
}
pub struct HnrInsBitFlags { pub b: u32 }
impl HnrInsBitFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u32) ensures r == self.b, { unimplemented!() }
}
pub struct HnrPvtFlags { pub b: u8 }
impl HnrPvtFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct HnrPvtValidFlags { pub b: u8 }
impl HnrPvtValidFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct InProtoMask { pub b: u16 }
impl InProtoMask {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
pub struct MonGnssConstellMask { pub b: u8 }
impl MonGnssConstellMask {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct NavBbrMask { pub b: u16 }
impl NavBbrMask {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
pub struct NavHpPosEcefFlags { pub b: u8 }
impl NavHpPosEcefFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct NavPvtFlags { pub b: u8 }
impl NavPvtFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct NavPvtFlags2 { pub b: u8 }
impl NavPvtFlags2 {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct NavStatusFlags { pub b: u8 }
impl NavStatusFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct NavTimeLsFlags { pub b: u8 }
impl NavTimeLsFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct NavTimeUtcFlags { pub b: u8 }
impl NavTimeUtcFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct OdoCogFilterFlags { pub b: u8 }
impl OdoCogFilterFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct OutProtoMask { pub b: u16 }
impl OutProtoMask {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u16) ensures r == self.b, { unimplemented!() }
}
pub struct RecStatFlags { pub b: u8 }
impl RecStatFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct StdevFlags { pub b: u8 }
impl StdevFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
pub struct TrkStatFlags { pub b: u8 }
impl TrkStatFlags {
    #[verifier::external_body] /*discharged: unit bits (Kani, real crate)*/ pub const fn bits(&self) -> (r: u8) ensures r == self.b, { unimplemented!() }
}
%postlude
impl<'a> serde::Serialize for UbxUnknownPacketRef<'a> {
    open spec fn form(&self) -> Form { form_of(self) }
    open spec fn fit(&self) -> bool { true }
    #[verifier::external_body] // written by serde_derive
    fn serialize<S>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) where S: serde::Serializer { unimplemented!() }
}
pub open spec fn packet_form(p: PacketRef) -> Form {
    match p {
        PacketRef::NavPosLlh(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x2u8))] + entries_NavPosLlh(m.0@)),
        PacketRef::NavVelNed(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x12u8))] + entries_NavVelNed(m.0@)),
        PacketRef::NavHpPosLlh(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x14u8))] + entries_NavHpPosLlh(m.0@)),
        PacketRef::NavHpPosEcef(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x13u8))] + entries_NavHpPosEcef(m.0@)),
        PacketRef::NavPvt(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x7u8))] + entries_NavPvt(m.0@)),
        PacketRef::NavStatus(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x3u8))] + entries_NavStatus(m.0@)),
        PacketRef::NavDop(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x4u8))] + entries_NavDop(m.0@)),
        PacketRef::NavEoe(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x61u8))] + entries_NavEoe(m.0@)),
        PacketRef::NavSolution(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x6u8))] + entries_NavSolution(m.0@)),
        PacketRef::NavSat(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x35u8))] + entries_NavSat(m.0@)),
        PacketRef::NavOdo(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x9u8))] + entries_NavOdo(m.0@)),
        PacketRef::CfgOdo(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x1eu8))] + entries_CfgOdo(m.0@)),
        PacketRef::CfgItfm(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x39u8))] + entries_CfgItfm(m.0@)),
        PacketRef::InfError(m) => map_form(seq![(form_of("class"), form_of(&0x4u8)), (form_of("msg_id"), form_of(&0x0u8))] + entries_InfError(m.0@)),
        PacketRef::InfNotice(m) => map_form(seq![(form_of("class"), form_of(&0x4u8)), (form_of("msg_id"), form_of(&0x2u8))] + entries_InfNotice(m.0@)),
        PacketRef::InfTest(m) => map_form(seq![(form_of("class"), form_of(&0x4u8)), (form_of("msg_id"), form_of(&0x3u8))] + entries_InfTest(m.0@)),
        PacketRef::InfWarning(m) => map_form(seq![(form_of("class"), form_of(&0x4u8)), (form_of("msg_id"), form_of(&0x1u8))] + entries_InfWarning(m.0@)),
        PacketRef::InfDebug(m) => map_form(seq![(form_of("class"), form_of(&0x4u8)), (form_of("msg_id"), form_of(&0x4u8))] + entries_InfDebug(m.0@)),
        PacketRef::AlpSrv(m) => map_form(seq![(form_of("class"), form_of(&0xbu8)), (form_of("msg_id"), form_of(&0x32u8))] + entries_AlpSrv(m.0@)),
        PacketRef::AckAck(m) => map_form(seq![(form_of("class"), form_of(&0x5u8)), (form_of("msg_id"), form_of(&0x1u8))] + entries_AckAck(m.0@)),
        PacketRef::AckNak(m) => map_form(seq![(form_of("class"), form_of(&0x5u8)), (form_of("msg_id"), form_of(&0x0u8))] + entries_AckNak(m.0@)),
        PacketRef::CfgAnt(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x13u8))] + entries_CfgAnt(m.0@)),
        PacketRef::CfgTp5(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x31u8))] + entries_CfgTp5(m.0@)),
        PacketRef::CfgTmode2(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x3du8))] + entries_CfgTmode2(m.0@)),
        PacketRef::TimSvin(m) => map_form(seq![(form_of("class"), form_of(&0xdu8)), (form_of("msg_id"), form_of(&0x4u8))] + entries_TimSvin(m.0@)),
        PacketRef::NavTimeLs(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x26u8))] + entries_NavTimeLs(m.0@)),
        PacketRef::CfgTmode3(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x71u8))] + entries_CfgTmode3(m.0@)),
        PacketRef::CfgPrtI2c(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x0u8))] + entries_CfgPrtI2c(m.0@)),
        PacketRef::CfgPrtUart(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x0u8))] + entries_CfgPrtUart(m.0@)),
        PacketRef::CfgPrtSpi(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x0u8))] + entries_CfgPrtSpi(m.0@)),
        PacketRef::NavTimeUTC(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x21u8))] + entries_NavTimeUTC(m.0@)),
        PacketRef::CfgNav5(m) => map_form(seq![(form_of("class"), form_of(&0x6u8)), (form_of("msg_id"), form_of(&0x24u8))] + entries_CfgNav5(m.0@)),
        PacketRef::MgaAck(m) => map_form(seq![(form_of("class"), form_of(&0x13u8)), (form_of("msg_id"), form_of(&0x60u8))] + entries_MgaAck(m.0@)),
        PacketRef::MgaGloEph(m) => map_form(seq![(form_of("class"), form_of(&0x13u8)), (form_of("msg_id"), form_of(&0x6u8))] + entries_MgaGloEph(m.0@)),
        PacketRef::MgaGpsIono(m) => map_form(seq![(form_of("class"), form_of(&0x13u8)), (form_of("msg_id"), form_of(&0x0u8))] + entries_MgaGpsIono(m.0@)),
        PacketRef::MgaGpsEph(m) => map_form(seq![(form_of("class"), form_of(&0x13u8)), (form_of("msg_id"), form_of(&0x0u8))] + entries_MgaGpsEph(m.0@)),
        PacketRef::TimTp(m) => map_form(seq![(form_of("class"), form_of(&0xdu8)), (form_of("msg_id"), form_of(&0x1u8))] + entries_TimTp(m.0@)),
        PacketRef::TimTm2(m) => map_form(seq![(form_of("class"), form_of(&0xdu8)), (form_of("msg_id"), form_of(&0x3u8))] + entries_TimTm2(m.0@)),
        PacketRef::RxmRawx(m) => map_form(seq![(form_of("class"), form_of(&0x2u8)), (form_of("msg_id"), form_of(&0x15u8))] + entries_RxmRawx(m.0@)),
        PacketRef::MonHw(m) => map_form(seq![(form_of("class"), form_of(&0xau8)), (form_of("msg_id"), form_of(&0x9u8))] + entries_MonHw(m.0@)),
        PacketRef::MonGnss(m) => map_form(seq![(form_of("class"), form_of(&0xau8)), (form_of("msg_id"), form_of(&0x28u8))] + entries_MonGnss(m.0@)),
        PacketRef::MonVer(m) => map_form(seq![(form_of("class"), form_of(&0xau8)), (form_of("msg_id"), form_of(&0x4u8))] + entries_MonVer(m.0@)),
        PacketRef::RxmRtcm(m) => map_form(seq![(form_of("class"), form_of(&0x2u8)), (form_of("msg_id"), form_of(&0x32u8))] + entries_RxmRtcm(m.0@)),
        PacketRef::EsfMeas(m) => map_form(seq![(form_of("class"), form_of(&0x10u8)), (form_of("msg_id"), form_of(&0x2u8))] + entries_EsfMeas(m.0@)),
        PacketRef::EsfRaw(m) => map_form(seq![(form_of("class"), form_of(&0x10u8)), (form_of("msg_id"), form_of(&0x3u8))] + entries_EsfRaw(m.0@)),
        PacketRef::EsfIns(m) => map_form(seq![(form_of("class"), form_of(&0x10u8)), (form_of("msg_id"), form_of(&0x15u8))] + entries_EsfIns(m.0@)),
        PacketRef::HnrAtt(m) => map_form(seq![(form_of("class"), form_of(&0x28u8)), (form_of("msg_id"), form_of(&0x1u8))] + entries_HnrAtt(m.0@)),
        PacketRef::HnrIns(m) => map_form(seq![(form_of("class"), form_of(&0x28u8)), (form_of("msg_id"), form_of(&0x2u8))] + entries_HnrIns(m.0@)),
        PacketRef::HnrPvt(m) => map_form(seq![(form_of("class"), form_of(&0x28u8)), (form_of("msg_id"), form_of(&0x0u8))] + entries_HnrPvt(m.0@)),
        PacketRef::NavAtt(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x5u8))] + entries_NavAtt(m.0@)),
        PacketRef::NavClock(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x22u8))] + entries_NavClock(m.0@)),
        PacketRef::RxmSfrbx(m) => map_form(seq![(form_of("class"), form_of(&0x2u8)), (form_of("msg_id"), form_of(&0x13u8))] + entries_RxmSfrbx(m.0@)),
        PacketRef::NavVelECEF(m) => map_form(seq![(form_of("class"), form_of(&0x1u8)), (form_of("msg_id"), form_of(&0x11u8))] + entries_NavVelECEF(m.0@)),
        PacketRef::MgaGpsEPH(m) => map_form(seq![(form_of("class"), form_of(&0x13u8)), (form_of("msg_id"), form_of(&0x0u8))] + entries_MgaGpsEPH(m.0@)),
        PacketRef::SecUniqId(m) => map_form(seq![(form_of("class"), form_of(&0x27u8)), (form_of("msg_id"), form_of(&0x3u8))] + entries_SecUniqId(m.0@)),
        PacketRef::Unknown(u) => form_of(&u),
    }
}
pub open spec fn packet_fit(p: PacketRef) -> bool {
    match p {
        PacketRef::NavPosLlh(m) => accepted(0, m.0@),
        PacketRef::NavVelNed(m) => accepted(1, m.0@),
        PacketRef::NavHpPosLlh(m) => accepted(2, m.0@),
        PacketRef::NavHpPosEcef(m) => accepted(3, m.0@),
        PacketRef::NavPvt(m) => accepted(4, m.0@),
        PacketRef::NavStatus(m) => accepted(5, m.0@),
        PacketRef::NavDop(m) => accepted(6, m.0@),
        PacketRef::NavEoe(m) => accepted(7, m.0@),
        PacketRef::NavSolution(m) => accepted(8, m.0@),
        PacketRef::NavSat(m) => accepted(10, m.0@),
        PacketRef::NavOdo(m) => accepted(11, m.0@),
        PacketRef::CfgOdo(m) => accepted(12, m.0@),
        PacketRef::CfgItfm(m) => accepted(13, m.0@),
        PacketRef::InfError(m) => accepted(15, m.0@),
        PacketRef::InfNotice(m) => accepted(16, m.0@),
        PacketRef::InfTest(m) => accepted(17, m.0@),
        PacketRef::InfWarning(m) => accepted(18, m.0@),
        PacketRef::InfDebug(m) => accepted(19, m.0@),
        PacketRef::AlpSrv(m) => accepted(20, m.0@),
        PacketRef::AckAck(m) => accepted(21, m.0@),
        PacketRef::AckNak(m) => accepted(22, m.0@),
        PacketRef::CfgAnt(m) => accepted(23, m.0@),
        PacketRef::CfgTp5(m) => accepted(24, m.0@),
        PacketRef::CfgTmode2(m) => accepted(25, m.0@),
        PacketRef::TimSvin(m) => accepted(26, m.0@),
        PacketRef::NavTimeLs(m) => accepted(27, m.0@),
        PacketRef::CfgTmode3(m) => accepted(28, m.0@),
        PacketRef::CfgPrtI2c(m) => accepted(29, m.0@),
        PacketRef::CfgPrtUart(m) => accepted(30, m.0@),
        PacketRef::CfgPrtSpi(m) => accepted(31, m.0@),
        PacketRef::NavTimeUTC(m) => accepted(32, m.0@),
        PacketRef::CfgNav5(m) => accepted(33, m.0@),
        PacketRef::MgaAck(m) => accepted(35, m.0@),
        PacketRef::MgaGloEph(m) => accepted(36, m.0@),
        PacketRef::MgaGpsIono(m) => accepted(37, m.0@),
        PacketRef::MgaGpsEph(m) => accepted(38, m.0@),
        PacketRef::TimTp(m) => accepted(39, m.0@),
        PacketRef::TimTm2(m) => accepted(40, m.0@),
        PacketRef::RxmRawx(m) => accepted(41, m.0@),
        PacketRef::MonHw(m) => accepted(42, m.0@),
        PacketRef::MonGnss(m) => accepted(43, m.0@),
        PacketRef::MonVer(m) => accepted(44, m.0@),
        PacketRef::RxmRtcm(m) => accepted(45, m.0@),
        PacketRef::EsfMeas(m) => accepted(46, m.0@),
        PacketRef::EsfRaw(m) => accepted(47, m.0@),
        PacketRef::EsfIns(m) => accepted(48, m.0@),
        PacketRef::HnrAtt(m) => accepted(49, m.0@),
        PacketRef::HnrIns(m) => accepted(50, m.0@),
        PacketRef::HnrPvt(m) => accepted(51, m.0@),
        PacketRef::NavAtt(m) => accepted(52, m.0@),
        PacketRef::NavClock(m) => accepted(53, m.0@),
        PacketRef::RxmSfrbx(m) => accepted(54, m.0@),
        PacketRef::NavVelECEF(m) => accepted(55, m.0@),
        PacketRef::MgaGpsEPH(m) => accepted(56, m.0@),
        PacketRef::SecUniqId(m) => accepted(58, m.0@),
        PacketRef::Unknown(u) => true,
    }
}
%source exps
%take struct UbxUnknownPacketRef
%take struct FieldIter
%take struct PacketSerializer
%drop struct NavPosLlhRef
%take impl SerializeUbxPacketFields for NavPosLlhRef
%insert impl SerializeUbxPacketFields for NavPosLlhRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavPosLlh(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(0, self.0@) }
%fn <SerializeUbxPacketFields for NavPosLlhRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavPosLlhRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavPosLlh(self.0@)); }
%take impl Serialize for NavPosLlhRef
%insert impl Serialize for NavPosLlhRef
    open spec fn form(&self) -> Form { map_form(entries_NavPosLlh(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(0, self.0@) }
%fn <Serialize for NavPosLlhRef>::serialize | ret=r
%take struct NavPosLlh
%take impl UbxPacketMeta for NavPosLlh
%only impl UbxPacketMeta for NavPosLlh = CLASS ID
%drop struct NavVelNedRef
%take impl SerializeUbxPacketFields for NavVelNedRef
%insert impl SerializeUbxPacketFields for NavVelNedRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavVelNed(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(1, self.0@) }
%fn <SerializeUbxPacketFields for NavVelNedRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavVelNedRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavVelNed(self.0@)); }
%take impl Serialize for NavVelNedRef
%insert impl Serialize for NavVelNedRef
    open spec fn form(&self) -> Form { map_form(entries_NavVelNed(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(1, self.0@) }
%fn <Serialize for NavVelNedRef>::serialize | ret=r
%take struct NavVelNed
%take impl UbxPacketMeta for NavVelNed
%only impl UbxPacketMeta for NavVelNed = CLASS ID
%drop struct NavHpPosLlhRef
%take impl SerializeUbxPacketFields for NavHpPosLlhRef
%insert impl SerializeUbxPacketFields for NavHpPosLlhRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavHpPosLlh(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(2, self.0@) }
%fn <SerializeUbxPacketFields for NavHpPosLlhRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavHpPosLlhRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavHpPosLlh(self.0@)); }
%take impl Serialize for NavHpPosLlhRef
%insert impl Serialize for NavHpPosLlhRef
    open spec fn form(&self) -> Form { map_form(entries_NavHpPosLlh(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(2, self.0@) }
%fn <Serialize for NavHpPosLlhRef>::serialize | ret=r
%take struct NavHpPosLlh
%take impl UbxPacketMeta for NavHpPosLlh
%only impl UbxPacketMeta for NavHpPosLlh = CLASS ID
%drop struct NavHpPosEcefRef
%take impl SerializeUbxPacketFields for NavHpPosEcefRef
%insert impl SerializeUbxPacketFields for NavHpPosEcefRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavHpPosEcef(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(3, self.0@) }
%fn <SerializeUbxPacketFields for NavHpPosEcefRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavHpPosEcefRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavHpPosEcef(self.0@)); }
%take impl Serialize for NavHpPosEcefRef
%insert impl Serialize for NavHpPosEcefRef
    open spec fn form(&self) -> Form { map_form(entries_NavHpPosEcef(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(3, self.0@) }
%fn <Serialize for NavHpPosEcefRef>::serialize | ret=r
%take struct NavHpPosEcef
%take impl UbxPacketMeta for NavHpPosEcef
%only impl UbxPacketMeta for NavHpPosEcef = CLASS ID
%drop struct NavPvtRef
%take impl SerializeUbxPacketFields for NavPvtRef
%insert impl SerializeUbxPacketFields for NavPvtRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavPvt(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(4, self.0@) }
%fn <SerializeUbxPacketFields for NavPvtRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavPvtRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavPvt(self.0@)); }
%take impl Serialize for NavPvtRef
%insert impl Serialize for NavPvtRef
    open spec fn form(&self) -> Form { map_form(entries_NavPvt(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(4, self.0@) }
%fn <Serialize for NavPvtRef>::serialize | ret=r
%take struct NavPvt
%take impl UbxPacketMeta for NavPvt
%only impl UbxPacketMeta for NavPvt = CLASS ID
%drop struct NavStatusRef
%take impl SerializeUbxPacketFields for NavStatusRef
%insert impl SerializeUbxPacketFields for NavStatusRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavStatus(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(5, self.0@) }
%fn <SerializeUbxPacketFields for NavStatusRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavStatusRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavStatus(self.0@)); }
%take impl Serialize for NavStatusRef
%insert impl Serialize for NavStatusRef
    open spec fn form(&self) -> Form { map_form(entries_NavStatus(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(5, self.0@) }
%fn <Serialize for NavStatusRef>::serialize | ret=r
%take struct NavStatus
%take impl UbxPacketMeta for NavStatus
%only impl UbxPacketMeta for NavStatus = CLASS ID
%drop struct NavDopRef
%take impl SerializeUbxPacketFields for NavDopRef
%insert impl SerializeUbxPacketFields for NavDopRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavDop(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(6, self.0@) }
%fn <SerializeUbxPacketFields for NavDopRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavDopRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavDop(self.0@)); }
%take impl Serialize for NavDopRef
%insert impl Serialize for NavDopRef
    open spec fn form(&self) -> Form { map_form(entries_NavDop(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(6, self.0@) }
%fn <Serialize for NavDopRef>::serialize | ret=r
%take struct NavDop
%take impl UbxPacketMeta for NavDop
%only impl UbxPacketMeta for NavDop = CLASS ID
%drop struct NavEoeRef
%take impl SerializeUbxPacketFields for NavEoeRef
%insert impl SerializeUbxPacketFields for NavEoeRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavEoe(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(7, self.0@) }
%fn <SerializeUbxPacketFields for NavEoeRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavEoeRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavEoe(self.0@)); }
%take impl Serialize for NavEoeRef
%insert impl Serialize for NavEoeRef
    open spec fn form(&self) -> Form { map_form(entries_NavEoe(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(7, self.0@) }
%fn <Serialize for NavEoeRef>::serialize | ret=r
%take struct NavEoe
%take impl UbxPacketMeta for NavEoe
%only impl UbxPacketMeta for NavEoe = CLASS ID
%drop struct NavSolutionRef
%take impl SerializeUbxPacketFields for NavSolutionRef
%insert impl SerializeUbxPacketFields for NavSolutionRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavSolution(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(8, self.0@) }
%fn <SerializeUbxPacketFields for NavSolutionRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavSolutionRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavSolution(self.0@)); }
%take impl Serialize for NavSolutionRef
%insert impl Serialize for NavSolutionRef
    open spec fn form(&self) -> Form { map_form(entries_NavSolution(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(8, self.0@) }
%fn <Serialize for NavSolutionRef>::serialize | ret=r
%take struct NavSolution
%take impl UbxPacketMeta for NavSolution
%only impl UbxPacketMeta for NavSolution = CLASS ID
%drop struct NavSatSvInfoRef
%take impl SerializeUbxPacketFields for NavSatSvInfoRef
%insert impl SerializeUbxPacketFields for NavSatSvInfoRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavSatSvInfo(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(9, self.0@) }
%fn <SerializeUbxPacketFields for NavSatSvInfoRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavSatSvInfoRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavSatSvInfo(self.0@)); }
%take impl Serialize for NavSatSvInfoRef
%insert impl Serialize for NavSatSvInfoRef
    open spec fn form(&self) -> Form { map_form(entries_NavSatSvInfo(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(9, self.0@) }
%fn <Serialize for NavSatSvInfoRef>::serialize | ret=r
%take struct NavSatSvInfo
%take impl UbxPacketMeta for NavSatSvInfo
%only impl UbxPacketMeta for NavSatSvInfo = CLASS ID
%drop struct NavSatRef
%take impl SerializeUbxPacketFields for NavSatRef
%insert impl SerializeUbxPacketFields for NavSatRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavSat(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(10, self.0@) }
%fn <SerializeUbxPacketFields for NavSatRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavSatRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavSat(self.0@)); }
%take impl Serialize for NavSatRef
%insert impl Serialize for NavSatRef
    open spec fn form(&self) -> Form { map_form(entries_NavSat(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(10, self.0@) }
%fn <Serialize for NavSatRef>::serialize | ret=r
%take struct NavSat
%take impl UbxPacketMeta for NavSat
%only impl UbxPacketMeta for NavSat = CLASS ID
%drop struct NavOdoRef
%take impl SerializeUbxPacketFields for NavOdoRef
%insert impl SerializeUbxPacketFields for NavOdoRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavOdo(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(11, self.0@) }
%fn <SerializeUbxPacketFields for NavOdoRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavOdoRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavOdo(self.0@)); }
%take impl Serialize for NavOdoRef
%insert impl Serialize for NavOdoRef
    open spec fn form(&self) -> Form { map_form(entries_NavOdo(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(11, self.0@) }
%fn <Serialize for NavOdoRef>::serialize | ret=r
%take struct NavOdo
%take impl UbxPacketMeta for NavOdo
%only impl UbxPacketMeta for NavOdo = CLASS ID
%drop struct CfgOdoRef
%take impl SerializeUbxPacketFields for CfgOdoRef
%insert impl SerializeUbxPacketFields for CfgOdoRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgOdo(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(12, self.0@) }
%fn <SerializeUbxPacketFields for CfgOdoRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgOdoRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgOdo(self.0@)); }
%take impl Serialize for CfgOdoRef
%insert impl Serialize for CfgOdoRef
    open spec fn form(&self) -> Form { map_form(entries_CfgOdo(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(12, self.0@) }
%fn <Serialize for CfgOdoRef>::serialize | ret=r
%take struct CfgOdo
%take impl UbxPacketMeta for CfgOdo
%only impl UbxPacketMeta for CfgOdo = CLASS ID
%drop struct CfgItfmRef
%take impl SerializeUbxPacketFields for CfgItfmRef
%insert impl SerializeUbxPacketFields for CfgItfmRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgItfm(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(13, self.0@) }
%fn <SerializeUbxPacketFields for CfgItfmRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgItfmRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgItfm(self.0@)); }
%take impl Serialize for CfgItfmRef
%insert impl Serialize for CfgItfmRef
    open spec fn form(&self) -> Form { map_form(entries_CfgItfm(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(13, self.0@) }
%fn <Serialize for CfgItfmRef>::serialize | ret=r
%take struct CfgItfm
%take impl UbxPacketMeta for CfgItfm
%only impl UbxPacketMeta for CfgItfm = CLASS ID
%drop struct CfgInfRef
%take impl SerializeUbxPacketFields for CfgInfRef
%insert impl SerializeUbxPacketFields for CfgInfRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgInf(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(14, self.0@) }
%fn <SerializeUbxPacketFields for CfgInfRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgInfRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgInf(self.0@)); }
%take impl Serialize for CfgInfRef
%insert impl Serialize for CfgInfRef
    open spec fn form(&self) -> Form { map_form(entries_CfgInf(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(14, self.0@) }
%fn <Serialize for CfgInfRef>::serialize | ret=r
%take struct CfgInf
%take impl UbxPacketMeta for CfgInf
%only impl UbxPacketMeta for CfgInf = CLASS ID
%drop struct InfErrorRef
%take impl SerializeUbxPacketFields for InfErrorRef
%insert impl SerializeUbxPacketFields for InfErrorRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_InfError(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(15, self.0@) }
%fn <SerializeUbxPacketFields for InfErrorRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for InfErrorRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_InfError(self.0@)); }
%take impl Serialize for InfErrorRef
%insert impl Serialize for InfErrorRef
    open spec fn form(&self) -> Form { map_form(entries_InfError(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(15, self.0@) }
%fn <Serialize for InfErrorRef>::serialize | ret=r
%take struct InfError
%take impl UbxPacketMeta for InfError
%only impl UbxPacketMeta for InfError = CLASS ID
%drop struct InfNoticeRef
%take impl SerializeUbxPacketFields for InfNoticeRef
%insert impl SerializeUbxPacketFields for InfNoticeRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_InfNotice(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(16, self.0@) }
%fn <SerializeUbxPacketFields for InfNoticeRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for InfNoticeRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_InfNotice(self.0@)); }
%take impl Serialize for InfNoticeRef
%insert impl Serialize for InfNoticeRef
    open spec fn form(&self) -> Form { map_form(entries_InfNotice(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(16, self.0@) }
%fn <Serialize for InfNoticeRef>::serialize | ret=r
%take struct InfNotice
%take impl UbxPacketMeta for InfNotice
%only impl UbxPacketMeta for InfNotice = CLASS ID
%drop struct InfTestRef
%take impl SerializeUbxPacketFields for InfTestRef
%insert impl SerializeUbxPacketFields for InfTestRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_InfTest(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(17, self.0@) }
%fn <SerializeUbxPacketFields for InfTestRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for InfTestRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_InfTest(self.0@)); }
%take impl Serialize for InfTestRef
%insert impl Serialize for InfTestRef
    open spec fn form(&self) -> Form { map_form(entries_InfTest(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(17, self.0@) }
%fn <Serialize for InfTestRef>::serialize | ret=r
%take struct InfTest
%take impl UbxPacketMeta for InfTest
%only impl UbxPacketMeta for InfTest = CLASS ID
%drop struct InfWarningRef
%take impl SerializeUbxPacketFields for InfWarningRef
%insert impl SerializeUbxPacketFields for InfWarningRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_InfWarning(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(18, self.0@) }
%fn <SerializeUbxPacketFields for InfWarningRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for InfWarningRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_InfWarning(self.0@)); }
%take impl Serialize for InfWarningRef
%insert impl Serialize for InfWarningRef
    open spec fn form(&self) -> Form { map_form(entries_InfWarning(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(18, self.0@) }
%fn <Serialize for InfWarningRef>::serialize | ret=r
%take struct InfWarning
%take impl UbxPacketMeta for InfWarning
%only impl UbxPacketMeta for InfWarning = CLASS ID
%drop struct InfDebugRef
%take impl SerializeUbxPacketFields for InfDebugRef
%insert impl SerializeUbxPacketFields for InfDebugRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_InfDebug(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(19, self.0@) }
%fn <SerializeUbxPacketFields for InfDebugRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for InfDebugRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_InfDebug(self.0@)); }
%take impl Serialize for InfDebugRef
%insert impl Serialize for InfDebugRef
    open spec fn form(&self) -> Form { map_form(entries_InfDebug(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(19, self.0@) }
%fn <Serialize for InfDebugRef>::serialize | ret=r
%take struct InfDebug
%take impl UbxPacketMeta for InfDebug
%only impl UbxPacketMeta for InfDebug = CLASS ID
%drop struct AlpSrvRef
%take impl SerializeUbxPacketFields for AlpSrvRef
%insert impl SerializeUbxPacketFields for AlpSrvRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_AlpSrv(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(20, self.0@) }
%fn <SerializeUbxPacketFields for AlpSrvRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for AlpSrvRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_AlpSrv(self.0@)); }
%take impl Serialize for AlpSrvRef
%insert impl Serialize for AlpSrvRef
    open spec fn form(&self) -> Form { map_form(entries_AlpSrv(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(20, self.0@) }
%fn <Serialize for AlpSrvRef>::serialize | ret=r
%take struct AlpSrv
%take impl UbxPacketMeta for AlpSrv
%only impl UbxPacketMeta for AlpSrv = CLASS ID
%drop struct AckAckRef
%take impl SerializeUbxPacketFields for AckAckRef
%insert impl SerializeUbxPacketFields for AckAckRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_AckAck(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(21, self.0@) }
%fn <SerializeUbxPacketFields for AckAckRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for AckAckRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_AckAck(self.0@)); }
%take impl Serialize for AckAckRef
%insert impl Serialize for AckAckRef
    open spec fn form(&self) -> Form { map_form(entries_AckAck(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(21, self.0@) }
%fn <Serialize for AckAckRef>::serialize | ret=r
%take struct AckAck
%take impl UbxPacketMeta for AckAck
%only impl UbxPacketMeta for AckAck = CLASS ID
%drop struct AckNakRef
%take impl SerializeUbxPacketFields for AckNakRef
%insert impl SerializeUbxPacketFields for AckNakRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_AckNak(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(22, self.0@) }
%fn <SerializeUbxPacketFields for AckNakRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for AckNakRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_AckNak(self.0@)); }
%take impl Serialize for AckNakRef
%insert impl Serialize for AckNakRef
    open spec fn form(&self) -> Form { map_form(entries_AckNak(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(22, self.0@) }
%fn <Serialize for AckNakRef>::serialize | ret=r
%take struct AckNak
%take impl UbxPacketMeta for AckNak
%only impl UbxPacketMeta for AckNak = CLASS ID
%drop struct CfgAntRef
%take impl SerializeUbxPacketFields for CfgAntRef
%insert impl SerializeUbxPacketFields for CfgAntRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgAnt(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(23, self.0@) }
%fn <SerializeUbxPacketFields for CfgAntRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgAntRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgAnt(self.0@)); }
%take impl Serialize for CfgAntRef
%insert impl Serialize for CfgAntRef
    open spec fn form(&self) -> Form { map_form(entries_CfgAnt(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(23, self.0@) }
%fn <Serialize for CfgAntRef>::serialize | ret=r
%take struct CfgAnt
%take impl UbxPacketMeta for CfgAnt
%only impl UbxPacketMeta for CfgAnt = CLASS ID
%drop struct CfgTp5Ref
%take impl SerializeUbxPacketFields for CfgTp5Ref
%insert impl SerializeUbxPacketFields for CfgTp5Ref
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgTp5(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(24, self.0@) }
%fn <SerializeUbxPacketFields for CfgTp5Ref>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgTp5Ref>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgTp5(self.0@)); }
%take impl Serialize for CfgTp5Ref
%insert impl Serialize for CfgTp5Ref
    open spec fn form(&self) -> Form { map_form(entries_CfgTp5(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(24, self.0@) }
%fn <Serialize for CfgTp5Ref>::serialize | ret=r
%take struct CfgTp5
%take impl UbxPacketMeta for CfgTp5
%only impl UbxPacketMeta for CfgTp5 = CLASS ID
%drop struct CfgTmode2Ref
%take impl SerializeUbxPacketFields for CfgTmode2Ref
%insert impl SerializeUbxPacketFields for CfgTmode2Ref
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgTmode2(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(25, self.0@) }
%fn <SerializeUbxPacketFields for CfgTmode2Ref>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgTmode2Ref>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgTmode2(self.0@)); }
%take impl Serialize for CfgTmode2Ref
%insert impl Serialize for CfgTmode2Ref
    open spec fn form(&self) -> Form { map_form(entries_CfgTmode2(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(25, self.0@) }
%fn <Serialize for CfgTmode2Ref>::serialize | ret=r
%take struct CfgTmode2
%take impl UbxPacketMeta for CfgTmode2
%only impl UbxPacketMeta for CfgTmode2 = CLASS ID
%drop struct TimSvinRef
%take impl SerializeUbxPacketFields for TimSvinRef
%insert impl SerializeUbxPacketFields for TimSvinRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_TimSvin(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(26, self.0@) }
%fn <SerializeUbxPacketFields for TimSvinRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for TimSvinRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_TimSvin(self.0@)); }
%take impl Serialize for TimSvinRef
%insert impl Serialize for TimSvinRef
    open spec fn form(&self) -> Form { map_form(entries_TimSvin(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(26, self.0@) }
%fn <Serialize for TimSvinRef>::serialize | ret=r
%take struct TimSvin
%take impl UbxPacketMeta for TimSvin
%only impl UbxPacketMeta for TimSvin = CLASS ID
%drop struct NavTimeLsRef
%take impl SerializeUbxPacketFields for NavTimeLsRef
%insert impl SerializeUbxPacketFields for NavTimeLsRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavTimeLs(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(27, self.0@) }
%fn <SerializeUbxPacketFields for NavTimeLsRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavTimeLsRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavTimeLs(self.0@)); }
%take impl Serialize for NavTimeLsRef
%insert impl Serialize for NavTimeLsRef
    open spec fn form(&self) -> Form { map_form(entries_NavTimeLs(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(27, self.0@) }
%fn <Serialize for NavTimeLsRef>::serialize | ret=r
%take struct NavTimeLs
%take impl UbxPacketMeta for NavTimeLs
%only impl UbxPacketMeta for NavTimeLs = CLASS ID
%drop struct CfgTmode3Ref
%take impl SerializeUbxPacketFields for CfgTmode3Ref
%insert impl SerializeUbxPacketFields for CfgTmode3Ref
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgTmode3(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(28, self.0@) }
%fn <SerializeUbxPacketFields for CfgTmode3Ref>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgTmode3Ref>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgTmode3(self.0@)); }
%take impl Serialize for CfgTmode3Ref
%insert impl Serialize for CfgTmode3Ref
    open spec fn form(&self) -> Form { map_form(entries_CfgTmode3(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(28, self.0@) }
%fn <Serialize for CfgTmode3Ref>::serialize | ret=r
%take struct CfgTmode3
%take impl UbxPacketMeta for CfgTmode3
%only impl UbxPacketMeta for CfgTmode3 = CLASS ID
%drop struct CfgPrtI2cRef
%take impl SerializeUbxPacketFields for CfgPrtI2cRef
%insert impl SerializeUbxPacketFields for CfgPrtI2cRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgPrtI2c(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(29, self.0@) }
%fn <SerializeUbxPacketFields for CfgPrtI2cRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgPrtI2cRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgPrtI2c(self.0@)); }
%take impl Serialize for CfgPrtI2cRef
%insert impl Serialize for CfgPrtI2cRef
    open spec fn form(&self) -> Form { map_form(entries_CfgPrtI2c(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(29, self.0@) }
%fn <Serialize for CfgPrtI2cRef>::serialize | ret=r
%take struct CfgPrtI2c
%take impl UbxPacketMeta for CfgPrtI2c
%only impl UbxPacketMeta for CfgPrtI2c = CLASS ID
%drop struct CfgPrtUartRef
%take impl SerializeUbxPacketFields for CfgPrtUartRef
%insert impl SerializeUbxPacketFields for CfgPrtUartRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgPrtUart(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(30, self.0@) }
%fn <SerializeUbxPacketFields for CfgPrtUartRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgPrtUartRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgPrtUart(self.0@)); }
%take impl Serialize for CfgPrtUartRef
%insert impl Serialize for CfgPrtUartRef
    open spec fn form(&self) -> Form { map_form(entries_CfgPrtUart(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(30, self.0@) }
%fn <Serialize for CfgPrtUartRef>::serialize | ret=r
%take struct CfgPrtUart
%take impl UbxPacketMeta for CfgPrtUart
%only impl UbxPacketMeta for CfgPrtUart = CLASS ID
%drop struct CfgPrtSpiRef
%take impl SerializeUbxPacketFields for CfgPrtSpiRef
%insert impl SerializeUbxPacketFields for CfgPrtSpiRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgPrtSpi(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(31, self.0@) }
%fn <SerializeUbxPacketFields for CfgPrtSpiRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgPrtSpiRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgPrtSpi(self.0@)); }
%take impl Serialize for CfgPrtSpiRef
%insert impl Serialize for CfgPrtSpiRef
    open spec fn form(&self) -> Form { map_form(entries_CfgPrtSpi(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(31, self.0@) }
%fn <Serialize for CfgPrtSpiRef>::serialize | ret=r
%take struct CfgPrtSpi
%take impl UbxPacketMeta for CfgPrtSpi
%only impl UbxPacketMeta for CfgPrtSpi = CLASS ID
%drop struct NavTimeUTCRef
%take impl SerializeUbxPacketFields for NavTimeUTCRef
%insert impl SerializeUbxPacketFields for NavTimeUTCRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavTimeUTC(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(32, self.0@) }
%fn <SerializeUbxPacketFields for NavTimeUTCRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavTimeUTCRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavTimeUTC(self.0@)); }
%take impl Serialize for NavTimeUTCRef
%insert impl Serialize for NavTimeUTCRef
    open spec fn form(&self) -> Form { map_form(entries_NavTimeUTC(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(32, self.0@) }
%fn <Serialize for NavTimeUTCRef>::serialize | ret=r
%take struct NavTimeUTC
%take impl UbxPacketMeta for NavTimeUTC
%only impl UbxPacketMeta for NavTimeUTC = CLASS ID
%drop struct CfgNav5Ref
%take impl SerializeUbxPacketFields for CfgNav5Ref
%insert impl SerializeUbxPacketFields for CfgNav5Ref
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgNav5(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(33, self.0@) }
%fn <SerializeUbxPacketFields for CfgNav5Ref>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgNav5Ref>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgNav5(self.0@)); }
%take impl Serialize for CfgNav5Ref
%insert impl Serialize for CfgNav5Ref
    open spec fn form(&self) -> Form { map_form(entries_CfgNav5(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(33, self.0@) }
%fn <Serialize for CfgNav5Ref>::serialize | ret=r
%take struct CfgNav5
%take impl UbxPacketMeta for CfgNav5
%only impl UbxPacketMeta for CfgNav5 = CLASS ID
%drop struct CfgNavX5Ref
%take impl SerializeUbxPacketFields for CfgNavX5Ref
%insert impl SerializeUbxPacketFields for CfgNavX5Ref
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_CfgNavX5(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(34, self.0@) }
%fn <SerializeUbxPacketFields for CfgNavX5Ref>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for CfgNavX5Ref>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_CfgNavX5(self.0@)); }
%take impl Serialize for CfgNavX5Ref
%insert impl Serialize for CfgNavX5Ref
    open spec fn form(&self) -> Form { map_form(entries_CfgNavX5(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(34, self.0@) }
%fn <Serialize for CfgNavX5Ref>::serialize | ret=r
%take struct CfgNavX5
%take impl UbxPacketMeta for CfgNavX5
%only impl UbxPacketMeta for CfgNavX5 = CLASS ID
%drop struct MgaAckRef
%take impl SerializeUbxPacketFields for MgaAckRef
%insert impl SerializeUbxPacketFields for MgaAckRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_MgaAck(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(35, self.0@) }
%fn <SerializeUbxPacketFields for MgaAckRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for MgaAckRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_MgaAck(self.0@)); }
%take impl Serialize for MgaAckRef
%insert impl Serialize for MgaAckRef
    open spec fn form(&self) -> Form { map_form(entries_MgaAck(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(35, self.0@) }
%fn <Serialize for MgaAckRef>::serialize | ret=r
%take struct MgaAck
%take impl UbxPacketMeta for MgaAck
%only impl UbxPacketMeta for MgaAck = CLASS ID
%drop struct MgaGloEphRef
%take impl SerializeUbxPacketFields for MgaGloEphRef
%insert impl SerializeUbxPacketFields for MgaGloEphRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_MgaGloEph(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(36, self.0@) }
%fn <SerializeUbxPacketFields for MgaGloEphRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for MgaGloEphRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_MgaGloEph(self.0@)); }
%take impl Serialize for MgaGloEphRef
%insert impl Serialize for MgaGloEphRef
    open spec fn form(&self) -> Form { map_form(entries_MgaGloEph(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(36, self.0@) }
%fn <Serialize for MgaGloEphRef>::serialize | ret=r
%take struct MgaGloEph
%take impl UbxPacketMeta for MgaGloEph
%only impl UbxPacketMeta for MgaGloEph = CLASS ID
%drop struct MgaGpsIonoRef
%take impl SerializeUbxPacketFields for MgaGpsIonoRef
%insert impl SerializeUbxPacketFields for MgaGpsIonoRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_MgaGpsIono(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(37, self.0@) }
%fn <SerializeUbxPacketFields for MgaGpsIonoRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for MgaGpsIonoRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_MgaGpsIono(self.0@)); }
%take impl Serialize for MgaGpsIonoRef
%insert impl Serialize for MgaGpsIonoRef
    open spec fn form(&self) -> Form { map_form(entries_MgaGpsIono(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(37, self.0@) }
%fn <Serialize for MgaGpsIonoRef>::serialize | ret=r
%take struct MgaGpsIono
%take impl UbxPacketMeta for MgaGpsIono
%only impl UbxPacketMeta for MgaGpsIono = CLASS ID
%drop struct MgaGpsEphRef
%take impl SerializeUbxPacketFields for MgaGpsEphRef
%insert impl SerializeUbxPacketFields for MgaGpsEphRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_MgaGpsEph(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(38, self.0@) }
%fn <SerializeUbxPacketFields for MgaGpsEphRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for MgaGpsEphRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_MgaGpsEph(self.0@)); }
%take impl Serialize for MgaGpsEphRef
%insert impl Serialize for MgaGpsEphRef
    open spec fn form(&self) -> Form { map_form(entries_MgaGpsEph(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(38, self.0@) }
%fn <Serialize for MgaGpsEphRef>::serialize | ret=r
%take struct MgaGpsEph
%take impl UbxPacketMeta for MgaGpsEph
%only impl UbxPacketMeta for MgaGpsEph = CLASS ID
%drop struct TimTpRef
%take impl SerializeUbxPacketFields for TimTpRef
%insert impl SerializeUbxPacketFields for TimTpRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_TimTp(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(39, self.0@) }
%fn <SerializeUbxPacketFields for TimTpRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for TimTpRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_TimTp(self.0@)); }
%take impl Serialize for TimTpRef
%insert impl Serialize for TimTpRef
    open spec fn form(&self) -> Form { map_form(entries_TimTp(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(39, self.0@) }
%fn <Serialize for TimTpRef>::serialize | ret=r
%take struct TimTp
%take impl UbxPacketMeta for TimTp
%only impl UbxPacketMeta for TimTp = CLASS ID
%drop struct TimTm2Ref
%take impl SerializeUbxPacketFields for TimTm2Ref
%insert impl SerializeUbxPacketFields for TimTm2Ref
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_TimTm2(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(40, self.0@) }
%fn <SerializeUbxPacketFields for TimTm2Ref>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for TimTm2Ref>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_TimTm2(self.0@)); }
%take impl Serialize for TimTm2Ref
%insert impl Serialize for TimTm2Ref
    open spec fn form(&self) -> Form { map_form(entries_TimTm2(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(40, self.0@) }
%fn <Serialize for TimTm2Ref>::serialize | ret=r
%take struct TimTm2
%take impl UbxPacketMeta for TimTm2
%only impl UbxPacketMeta for TimTm2 = CLASS ID
%drop struct RxmRawxRef
%take impl SerializeUbxPacketFields for RxmRawxRef
%insert impl SerializeUbxPacketFields for RxmRawxRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_RxmRawx(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(41, self.0@) }
%fn <SerializeUbxPacketFields for RxmRawxRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for RxmRawxRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_RxmRawx(self.0@)); }
%take impl Serialize for RxmRawxRef
%insert impl Serialize for RxmRawxRef
    open spec fn form(&self) -> Form { map_form(entries_RxmRawx(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(41, self.0@) }
%fn <Serialize for RxmRawxRef>::serialize | ret=r
%take struct RxmRawx
%take impl UbxPacketMeta for RxmRawx
%only impl UbxPacketMeta for RxmRawx = CLASS ID
%drop struct MonHwRef
%take impl SerializeUbxPacketFields for MonHwRef
%insert impl SerializeUbxPacketFields for MonHwRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_MonHw(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(42, self.0@) }
%fn <SerializeUbxPacketFields for MonHwRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for MonHwRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_MonHw(self.0@)); }
%take impl Serialize for MonHwRef
%insert impl Serialize for MonHwRef
    open spec fn form(&self) -> Form { map_form(entries_MonHw(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(42, self.0@) }
%fn <Serialize for MonHwRef>::serialize | ret=r
%take struct MonHw
%take impl UbxPacketMeta for MonHw
%only impl UbxPacketMeta for MonHw = CLASS ID
%drop struct MonGnssRef
%take impl SerializeUbxPacketFields for MonGnssRef
%insert impl SerializeUbxPacketFields for MonGnssRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_MonGnss(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(43, self.0@) }
%fn <SerializeUbxPacketFields for MonGnssRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for MonGnssRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_MonGnss(self.0@)); }
%take impl Serialize for MonGnssRef
%insert impl Serialize for MonGnssRef
    open spec fn form(&self) -> Form { map_form(entries_MonGnss(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(43, self.0@) }
%fn <Serialize for MonGnssRef>::serialize | ret=r
%take struct MonGnss
%take impl UbxPacketMeta for MonGnss
%only impl UbxPacketMeta for MonGnss = CLASS ID
%drop struct MonVerRef
%take impl SerializeUbxPacketFields for MonVerRef
%insert impl SerializeUbxPacketFields for MonVerRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_MonVer(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(44, self.0@) }
%fn <SerializeUbxPacketFields for MonVerRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for MonVerRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_MonVer(self.0@)); }
%take impl Serialize for MonVerRef
%insert impl Serialize for MonVerRef
    open spec fn form(&self) -> Form { map_form(entries_MonVer(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(44, self.0@) }
%fn <Serialize for MonVerRef>::serialize | ret=r
%take struct MonVer
%take impl UbxPacketMeta for MonVer
%only impl UbxPacketMeta for MonVer = CLASS ID
%drop struct RxmRtcmRef
%take impl SerializeUbxPacketFields for RxmRtcmRef
%insert impl SerializeUbxPacketFields for RxmRtcmRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_RxmRtcm(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(45, self.0@) }
%fn <SerializeUbxPacketFields for RxmRtcmRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for RxmRtcmRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_RxmRtcm(self.0@)); }
%take impl Serialize for RxmRtcmRef
%insert impl Serialize for RxmRtcmRef
    open spec fn form(&self) -> Form { map_form(entries_RxmRtcm(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(45, self.0@) }
%fn <Serialize for RxmRtcmRef>::serialize | ret=r
%take struct RxmRtcm
%take impl UbxPacketMeta for RxmRtcm
%only impl UbxPacketMeta for RxmRtcm = CLASS ID
%drop struct EsfMeasRef
%take impl SerializeUbxPacketFields for EsfMeasRef
%insert impl SerializeUbxPacketFields for EsfMeasRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_EsfMeas(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(46, self.0@) }
%fn <SerializeUbxPacketFields for EsfMeasRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for EsfMeasRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_EsfMeas(self.0@)); }
%take impl Serialize for EsfMeasRef
%insert impl Serialize for EsfMeasRef
    open spec fn form(&self) -> Form { map_form(entries_EsfMeas(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(46, self.0@) }
%fn <Serialize for EsfMeasRef>::serialize | ret=r
%take struct EsfMeas
%take impl UbxPacketMeta for EsfMeas
%only impl UbxPacketMeta for EsfMeas = CLASS ID
%drop struct EsfRawRef
%take impl SerializeUbxPacketFields for EsfRawRef
%insert impl SerializeUbxPacketFields for EsfRawRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_EsfRaw(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(47, self.0@) }
%fn <SerializeUbxPacketFields for EsfRawRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for EsfRawRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_EsfRaw(self.0@)); }
%take impl Serialize for EsfRawRef
%insert impl Serialize for EsfRawRef
    open spec fn form(&self) -> Form { map_form(entries_EsfRaw(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(47, self.0@) }
%fn <Serialize for EsfRawRef>::serialize | ret=r
%take struct EsfRaw
%take impl UbxPacketMeta for EsfRaw
%only impl UbxPacketMeta for EsfRaw = CLASS ID
%drop struct EsfInsRef
%take impl SerializeUbxPacketFields for EsfInsRef
%insert impl SerializeUbxPacketFields for EsfInsRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_EsfIns(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(48, self.0@) }
%fn <SerializeUbxPacketFields for EsfInsRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for EsfInsRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_EsfIns(self.0@)); }
%take impl Serialize for EsfInsRef
%insert impl Serialize for EsfInsRef
    open spec fn form(&self) -> Form { map_form(entries_EsfIns(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(48, self.0@) }
%fn <Serialize for EsfInsRef>::serialize | ret=r
%take struct EsfIns
%take impl UbxPacketMeta for EsfIns
%only impl UbxPacketMeta for EsfIns = CLASS ID
%drop struct HnrAttRef
%take impl SerializeUbxPacketFields for HnrAttRef
%insert impl SerializeUbxPacketFields for HnrAttRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_HnrAtt(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(49, self.0@) }
%fn <SerializeUbxPacketFields for HnrAttRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for HnrAttRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_HnrAtt(self.0@)); }
%take impl Serialize for HnrAttRef
%insert impl Serialize for HnrAttRef
    open spec fn form(&self) -> Form { map_form(entries_HnrAtt(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(49, self.0@) }
%fn <Serialize for HnrAttRef>::serialize | ret=r
%take struct HnrAtt
%take impl UbxPacketMeta for HnrAtt
%only impl UbxPacketMeta for HnrAtt = CLASS ID
%drop struct HnrInsRef
%take impl SerializeUbxPacketFields for HnrInsRef
%insert impl SerializeUbxPacketFields for HnrInsRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_HnrIns(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(50, self.0@) }
%fn <SerializeUbxPacketFields for HnrInsRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for HnrInsRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_HnrIns(self.0@)); }
%take impl Serialize for HnrInsRef
%insert impl Serialize for HnrInsRef
    open spec fn form(&self) -> Form { map_form(entries_HnrIns(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(50, self.0@) }
%fn <Serialize for HnrInsRef>::serialize | ret=r
%take struct HnrIns
%take impl UbxPacketMeta for HnrIns
%only impl UbxPacketMeta for HnrIns = CLASS ID
%drop struct HnrPvtRef
%take impl SerializeUbxPacketFields for HnrPvtRef
%insert impl SerializeUbxPacketFields for HnrPvtRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_HnrPvt(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(51, self.0@) }
%fn <SerializeUbxPacketFields for HnrPvtRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for HnrPvtRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_HnrPvt(self.0@)); }
%take impl Serialize for HnrPvtRef
%insert impl Serialize for HnrPvtRef
    open spec fn form(&self) -> Form { map_form(entries_HnrPvt(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(51, self.0@) }
%fn <Serialize for HnrPvtRef>::serialize | ret=r
%take struct HnrPvt
%take impl UbxPacketMeta for HnrPvt
%only impl UbxPacketMeta for HnrPvt = CLASS ID
%drop struct NavAttRef
%take impl SerializeUbxPacketFields for NavAttRef
%insert impl SerializeUbxPacketFields for NavAttRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavAtt(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(52, self.0@) }
%fn <SerializeUbxPacketFields for NavAttRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavAttRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavAtt(self.0@)); }
%take impl Serialize for NavAttRef
%insert impl Serialize for NavAttRef
    open spec fn form(&self) -> Form { map_form(entries_NavAtt(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(52, self.0@) }
%fn <Serialize for NavAttRef>::serialize | ret=r
%take struct NavAtt
%take impl UbxPacketMeta for NavAtt
%only impl UbxPacketMeta for NavAtt = CLASS ID
%drop struct NavClockRef
%take impl SerializeUbxPacketFields for NavClockRef
%insert impl SerializeUbxPacketFields for NavClockRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavClock(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(53, self.0@) }
%fn <SerializeUbxPacketFields for NavClockRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavClockRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavClock(self.0@)); }
%take impl Serialize for NavClockRef
%insert impl Serialize for NavClockRef
    open spec fn form(&self) -> Form { map_form(entries_NavClock(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(53, self.0@) }
%fn <Serialize for NavClockRef>::serialize | ret=r
%take struct NavClock
%take impl UbxPacketMeta for NavClock
%only impl UbxPacketMeta for NavClock = CLASS ID
%drop struct RxmSfrbxRef
%take impl SerializeUbxPacketFields for RxmSfrbxRef
%insert impl SerializeUbxPacketFields for RxmSfrbxRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_RxmSfrbx(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(54, self.0@) }
%fn <SerializeUbxPacketFields for RxmSfrbxRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for RxmSfrbxRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_RxmSfrbx(self.0@)); }
%take impl Serialize for RxmSfrbxRef
%insert impl Serialize for RxmSfrbxRef
    open spec fn form(&self) -> Form { map_form(entries_RxmSfrbx(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(54, self.0@) }
%fn <Serialize for RxmSfrbxRef>::serialize | ret=r
%take struct RxmSfrbx
%take impl UbxPacketMeta for RxmSfrbx
%only impl UbxPacketMeta for RxmSfrbx = CLASS ID
%drop struct NavVelECEFRef
%take impl SerializeUbxPacketFields for NavVelECEFRef
%insert impl SerializeUbxPacketFields for NavVelECEFRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_NavVelECEF(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(55, self.0@) }
%fn <SerializeUbxPacketFields for NavVelECEFRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for NavVelECEFRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_NavVelECEF(self.0@)); }
%take impl Serialize for NavVelECEFRef
%insert impl Serialize for NavVelECEFRef
    open spec fn form(&self) -> Form { map_form(entries_NavVelECEF(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(55, self.0@) }
%fn <Serialize for NavVelECEFRef>::serialize | ret=r
%take struct NavVelECEF
%take impl UbxPacketMeta for NavVelECEF
%only impl UbxPacketMeta for NavVelECEF = CLASS ID
%drop struct MgaGpsEPHRef
%take impl SerializeUbxPacketFields for MgaGpsEPHRef
%insert impl SerializeUbxPacketFields for MgaGpsEPHRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_MgaGpsEPH(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(56, self.0@) }
%fn <SerializeUbxPacketFields for MgaGpsEPHRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for MgaGpsEPHRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_MgaGpsEPH(self.0@)); }
%take impl Serialize for MgaGpsEPHRef
%insert impl Serialize for MgaGpsEPHRef
    open spec fn form(&self) -> Form { map_form(entries_MgaGpsEPH(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(56, self.0@) }
%fn <Serialize for MgaGpsEPHRef>::serialize | ret=r
%take struct MgaGpsEPH
%take impl UbxPacketMeta for MgaGpsEPH
%only impl UbxPacketMeta for MgaGpsEPH = CLASS ID
%drop struct RxmRawxInfoRef
%take impl SerializeUbxPacketFields for RxmRawxInfoRef
%insert impl SerializeUbxPacketFields for RxmRawxInfoRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_RxmRawxInfo(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(57, self.0@) }
%fn <SerializeUbxPacketFields for RxmRawxInfoRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for RxmRawxInfoRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_RxmRawxInfo(self.0@)); }
%take impl Serialize for RxmRawxInfoRef
%insert impl Serialize for RxmRawxInfoRef
    open spec fn form(&self) -> Form { map_form(entries_RxmRawxInfo(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(57, self.0@) }
%fn <Serialize for RxmRawxInfoRef>::serialize | ret=r
%take struct RxmRawxInfo
%take impl UbxPacketMeta for RxmRawxInfo
%only impl UbxPacketMeta for RxmRawxInfo = CLASS ID
%drop struct SecUniqIdRef
%take impl SerializeUbxPacketFields for SecUniqIdRef
%insert impl SerializeUbxPacketFields for SecUniqIdRef
    open spec fn entries(&self) -> Seq<(Form, Form)> { entries_SecUniqId(self.0@) }
    open spec fn fit_fields(&self) -> bool { accepted(58, self.0@) }
%fn <SerializeUbxPacketFields for SecUniqIdRef>::serialize_fields | ret=r
%end <SerializeUbxPacketFields for SecUniqIdRef>::serialize_fields
        proof { assert(state.log() =~= old(state).log() + entries_SecUniqId(self.0@)); }
%take impl Serialize for SecUniqIdRef
%insert impl Serialize for SecUniqIdRef
    open spec fn form(&self) -> Form { map_form(entries_SecUniqId(self.0@)) }
    open spec fn fit(&self) -> bool { accepted(58, self.0@) }
%fn <Serialize for SecUniqIdRef>::serialize | ret=r
%take struct SecUniqId
%take impl UbxPacketMeta for SecUniqId
%only impl UbxPacketMeta for SecUniqId = CLASS ID
%take enum AntennaPower
%derive enum AntennaPower :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for AntennaPower
%insert impl Serialize for AntennaPower
    open spec fn form(&self) -> Form { int_form(8, AntennaPower_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for AntennaPower>::serialize | ret=r
%take enum AntennaStatus
%derive enum AntennaStatus :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for AntennaStatus
%insert impl Serialize for AntennaStatus
    open spec fn form(&self) -> Form { int_form(8, AntennaStatus_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for AntennaStatus>::serialize | ret=r
%take enum CfgItfmAntennaSettings
%derive enum CfgItfmAntennaSettings :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for CfgItfmAntennaSettings
%insert impl Serialize for CfgItfmAntennaSettings
    open spec fn form(&self) -> Form { int_form(8, CfgItfmAntennaSettings_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgItfmAntennaSettings>::serialize | ret=r
%take enum CfgNav5DynModel
%derive enum CfgNav5DynModel :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for CfgNav5DynModel
%insert impl Serialize for CfgNav5DynModel
    open spec fn form(&self) -> Form { int_form(8, CfgNav5DynModel_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgNav5DynModel>::serialize | ret=r
%take enum CfgNav5FixMode
%derive enum CfgNav5FixMode :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for CfgNav5FixMode
%insert impl Serialize for CfgNav5FixMode
    open spec fn form(&self) -> Form { int_form(8, CfgNav5FixMode_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgNav5FixMode>::serialize | ret=r
%take enum CfgNav5UtcStandard
%derive enum CfgNav5UtcStandard :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for CfgNav5UtcStandard
%insert impl Serialize for CfgNav5UtcStandard
    open spec fn form(&self) -> Form { int_form(8, CfgNav5UtcStandard_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgNav5UtcStandard>::serialize | ret=r
%take enum CfgTmode2TimeXferModes
%derive enum CfgTmode2TimeXferModes :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for CfgTmode2TimeXferModes
%insert impl Serialize for CfgTmode2TimeXferModes
    open spec fn form(&self) -> Form { int_form(8, CfgTmode2TimeXferModes_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgTmode2TimeXferModes>::serialize | ret=r
%take enum CfgTp5TimePulseMode
%derive enum CfgTp5TimePulseMode :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for CfgTp5TimePulseMode
%insert impl Serialize for CfgTp5TimePulseMode
    open spec fn form(&self) -> Form { int_form(8, CfgTp5TimePulseMode_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgTp5TimePulseMode>::serialize | ret=r
%take enum GpsFix
%derive enum GpsFix :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for GpsFix
%insert impl Serialize for GpsFix
    open spec fn form(&self) -> Form { int_form(8, GpsFix_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for GpsFix>::serialize | ret=r
%take enum I2cPortId
%derive enum I2cPortId :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for I2cPortId
%insert impl Serialize for I2cPortId
    open spec fn form(&self) -> Form { int_form(8, I2cPortId_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for I2cPortId>::serialize | ret=r
%take enum MsgAckInfoCode
%derive enum MsgAckInfoCode :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for MsgAckInfoCode
%insert impl Serialize for MsgAckInfoCode
    open spec fn form(&self) -> Form { int_form(8, MsgAckInfoCode_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for MsgAckInfoCode>::serialize | ret=r
%take enum NavStatusFlags2
%derive enum NavStatusFlags2 :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for NavStatusFlags2
%insert impl Serialize for NavStatusFlags2
    open spec fn form(&self) -> Form { int_form(8, NavStatusFlags2_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for NavStatusFlags2>::serialize | ret=r
%take enum OdoProfile
%derive enum OdoProfile :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for OdoProfile
%insert impl Serialize for OdoProfile
    open spec fn form(&self) -> Form { int_form(8, OdoProfile_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for OdoProfile>::serialize | ret=r
%take enum SpiPortId
%derive enum SpiPortId :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for SpiPortId
%insert impl Serialize for SpiPortId
    open spec fn form(&self) -> Form { int_form(8, SpiPortId_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for SpiPortId>::serialize | ret=r
%take enum UartPortId
%derive enum UartPortId :: #[derive(Clone, Copy)] #[repr(u8)]
%take impl Serialize for UartPortId
%insert impl Serialize for UartPortId
    open spec fn form(&self) -> Form { int_form(8, UartPortId_code(*self) as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for UartPortId>::serialize | ret=r
%take impl Serialize for AntFlags
%insert impl Serialize for AntFlags
    open spec fn form(&self) -> Form { int_form(16, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for AntFlags>::serialize | ret=r
%take impl Serialize for CfgInfMask
%insert impl Serialize for CfgInfMask
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgInfMask>::serialize | ret=r
%take impl Serialize for CfgLayer
%insert impl Serialize for CfgLayer
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgLayer>::serialize | ret=r
%take impl Serialize for CfgNav5Params
%insert impl Serialize for CfgNav5Params
    open spec fn form(&self) -> Form { int_form(16, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgNav5Params>::serialize | ret=r
%take impl Serialize for CfgNavX5Params1
%insert impl Serialize for CfgNavX5Params1
    open spec fn form(&self) -> Form { int_form(16, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgNavX5Params1>::serialize | ret=r
%take impl Serialize for CfgNavX5Params2
%insert impl Serialize for CfgNavX5Params2
    open spec fn form(&self) -> Form { int_form(32, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgNavX5Params2>::serialize | ret=r
%take impl Serialize for CfgTmode2Flags
%insert impl Serialize for CfgTmode2Flags
    open spec fn form(&self) -> Form { int_form(16, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgTmode2Flags>::serialize | ret=r
%take impl Serialize for CfgTmode3Flags
%insert impl Serialize for CfgTmode3Flags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgTmode3Flags>::serialize | ret=r
%take impl Serialize for CfgTmode3RcvrMode
%insert impl Serialize for CfgTmode3RcvrMode
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgTmode3RcvrMode>::serialize | ret=r
%take impl Serialize for CfgTp5Flags
%insert impl Serialize for CfgTp5Flags
    open spec fn form(&self) -> Form { int_form(32, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for CfgTp5Flags>::serialize | ret=r
%take impl Serialize for EsfInsBitFlags
%insert impl Serialize for EsfInsBitFlags
    open spec fn form(&self) -> Form { int_form(32, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for EsfInsBitFlags>::serialize | ret=r
%take impl Serialize for HnrInsBitFlags
%insert impl Serialize for HnrInsBitFlags
    open spec fn form(&self) -> Form { int_form(32, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for HnrInsBitFlags>::serialize | ret=r
%take impl Serialize for HnrPvtFlags
%insert impl Serialize for HnrPvtFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for HnrPvtFlags>::serialize | ret=r
%take impl Serialize for HnrPvtValidFlags
%insert impl Serialize for HnrPvtValidFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for HnrPvtValidFlags>::serialize | ret=r
%take impl Serialize for InProtoMask
%insert impl Serialize for InProtoMask
    open spec fn form(&self) -> Form { int_form(16, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for InProtoMask>::serialize | ret=r
%take impl Serialize for MonGnssConstellMask
%insert impl Serialize for MonGnssConstellMask
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for MonGnssConstellMask>::serialize | ret=r
%take impl Serialize for NavBbrMask
%insert impl Serialize for NavBbrMask
    open spec fn form(&self) -> Form { int_form(16, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for NavBbrMask>::serialize | ret=r
%take impl Serialize for NavHpPosEcefFlags
%insert impl Serialize for NavHpPosEcefFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for NavHpPosEcefFlags>::serialize | ret=r
%take impl Serialize for NavPvtFlags
%insert impl Serialize for NavPvtFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for NavPvtFlags>::serialize | ret=r
%take impl Serialize for NavPvtFlags2
%insert impl Serialize for NavPvtFlags2
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for NavPvtFlags2>::serialize | ret=r
%take impl Serialize for NavStatusFlags
%insert impl Serialize for NavStatusFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for NavStatusFlags>::serialize | ret=r
%take impl Serialize for NavTimeLsFlags
%insert impl Serialize for NavTimeLsFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for NavTimeLsFlags>::serialize | ret=r
%take impl Serialize for NavTimeUtcFlags
%insert impl Serialize for NavTimeUtcFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for NavTimeUtcFlags>::serialize | ret=r
%take impl Serialize for OdoCogFilterFlags
%insert impl Serialize for OdoCogFilterFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for OdoCogFilterFlags>::serialize | ret=r
%take impl Serialize for OutProtoMask
%insert impl Serialize for OutProtoMask
    open spec fn form(&self) -> Form { int_form(16, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for OutProtoMask>::serialize | ret=r
%take impl Serialize for RecStatFlags
%insert impl Serialize for RecStatFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for RecStatFlags>::serialize | ret=r
%take impl Serialize for StdevFlags
%insert impl Serialize for StdevFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for StdevFlags>::serialize | ret=r
%take impl Serialize for TrkStatFlags
%insert impl Serialize for TrkStatFlags
    open spec fn form(&self) -> Form { int_form(8, self.b as int) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for TrkStatFlags>::serialize | ret=r
%take enum PacketRef
%take trait SerializeUbxPacketFields
%insert trait SerializeUbxPacketFields
    /// the entries to be written
    spec fn entries(&self) -> Seq<(Form, Form)>;
    spec fn fit_fields(&self) -> bool;
%fn SerializeUbxPacketFields::serialize_fields | ret=r
        requires self.fit_fields(),
        ensures r is Ok ==> final(serializer).log() == old(serializer).log() + self.entries(),
%take impl Serialize for PacketSerializer<T>
%insert impl Serialize for PacketSerializer<T>
    open spec fn form(&self) -> Form { map_form(seq![(form_of("class"), form_of(&self.class)), (form_of("msg_id"), form_of(&self.msg_id))] + self.msg.entries()) }
    open spec fn fit(&self) -> bool { self.msg.fit_fields() }
%fn <Serialize for PacketSerializer<T>>::serialize | ret=r
%end <Serialize for PacketSerializer<T>>::serialize
        proof { assert(state.log() =~= seq![(form_of("class"), form_of(&self.class)), (form_of("msg_id"), form_of(&self.msg_id))] + self.msg.entries()); }
%take impl Serialize for PacketRef
%insert impl Serialize for PacketRef
    open spec fn form(&self) -> Form { packet_form(*self) }
    open spec fn fit(&self) -> bool { packet_fit(*self) }
%fn <Serialize for PacketRef>::serialize | ret=r
%take impl Serialize for FieldIter<I>
%insert impl Serialize for FieldIter<I>
    open spec fn form(&self) -> Form { items_form(self.0) }
    open spec fn fit(&self) -> bool { true }
%fn <Serialize for FieldIter<I>>::serialize | ret=r
%start <Serialize for FieldIter<I>>::serialize
        broadcast use axiom_clone_items;
%gsubst
crate::ubx_packets::FieldIter ==> FieldIter
;;
crate::ubx_packets::PacketSerializer ==> PacketSerializer
