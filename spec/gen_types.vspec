%# Generated by tools/gencontracts.py from spec/layout.json; do not edit.
%floatops <From<
%prelude
pub uninterp spec fn add64(a: f64, b: f64) -> f64;
pub uninterp spec fn sub64(a: f64, b: f64) -> f64;
pub uninterp spec fn div64(a: f64, b: f64) -> f64;
// IEEE addition and multiplication are commutative
pub broadcast axiom fn axiom_mul64_comm(a: f64, b: f64) ensures #[trigger] mul64(a, b) == mul64(b, a);
pub broadcast axiom fn axiom_add64_comm(a: f64, b: f64) ensures #[trigger] add64(a, b) == add64(b, a);
#[verifier::external_body]
pub fn fadd(a: f64, b: f64) -> (r: f64) ensures r == add64(a, b), { a + b }
#[verifier::external_body]
pub fn fsub(a: f64, b: f64) -> (r: f64) ensures r == sub64(a, b), { a - b }
#[verifier::external_body]
pub fn fdiv(a: f64, b: f64) -> (r: f64) ensures r == div64(a, b), { a / b }
%source exp
%take struct Position
%take struct PositionECEF
%take struct Velocity
%take struct NavPosLlhRef
%take impl NavPosLlhRef
%only impl NavPosLlhRef = lon_degrees lat_degrees height_msl
%fn NavPosLlhRef::lon_degrees | ret=r
        requires self.0@.len() == 28,
        ensures r == mul64(to64(sg(le4(self.0@, 4), 0x80000000)), 1e-7f64),
%fn NavPosLlhRef::lat_degrees | ret=r
        requires self.0@.len() == 28,
        ensures r == mul64(to64(sg(le4(self.0@, 8), 0x80000000)), 1e-7f64),
%fn NavPosLlhRef::height_msl | ret=r
        requires self.0@.len() == 28,
        ensures r == mul64(to64(sg(le4(self.0@, 16), 0x80000000)), 1e-3f64),
%take struct NavHpPosLlhRef
%take impl NavHpPosLlhRef
%only impl NavHpPosLlhRef = lon_degrees lat_degrees height_msl lon_hp_degrees lat_hp_degrees height_hp_msl
%fn NavHpPosLlhRef::lon_degrees | ret=r
        requires self.0@.len() == 36,
        ensures r == mul64(to64(sg(le4(self.0@, 8), 0x80000000)), 1e-7f64),
%fn NavHpPosLlhRef::lat_degrees | ret=r
        requires self.0@.len() == 36,
        ensures r == mul64(to64(sg(le4(self.0@, 12), 0x80000000)), 1e-7f64),
%fn NavHpPosLlhRef::height_msl | ret=r
        requires self.0@.len() == 36,
        ensures r == mul64(to64(sg(le4(self.0@, 20), 0x80000000)), 1e-3f64),
%fn NavHpPosLlhRef::lon_hp_degrees | ret=r
        requires self.0@.len() == 36,
        ensures r == mul64(to64(sg(self.0@[24] as int, 0x80)), 1e-9f64),
%fn NavHpPosLlhRef::lat_hp_degrees | ret=r
        requires self.0@.len() == 36,
        ensures r == mul64(to64(sg(self.0@[25] as int, 0x80)), 1e-9f64),
%fn NavHpPosLlhRef::height_hp_msl | ret=r
        requires self.0@.len() == 36,
        ensures r == mul64(to64(sg(self.0@[27] as int, 0x80)), 1e-1f64),
%take struct NavHpPosEcefRef
%take impl NavHpPosEcefRef
%only impl NavHpPosEcefRef = ecef_x_cm ecef_y_cm ecef_z_cm ecef_x_hp_mm ecef_y_hp_mm ecef_z_hp_mm
%fn NavHpPosEcefRef::ecef_x_cm | ret=r
        requires self.0@.len() == 28,
        ensures r == to64(sg(le4(self.0@, 8), 0x80000000)),
%fn NavHpPosEcefRef::ecef_y_cm | ret=r
        requires self.0@.len() == 28,
        ensures r == to64(sg(le4(self.0@, 12), 0x80000000)),
%fn NavHpPosEcefRef::ecef_z_cm | ret=r
        requires self.0@.len() == 28,
        ensures r == to64(sg(le4(self.0@, 16), 0x80000000)),
%fn NavHpPosEcefRef::ecef_x_hp_mm | ret=r
        requires self.0@.len() == 28,
        ensures r == mul64(to64(sg(self.0@[20] as int, 0x80)), 1e-1f64),
%fn NavHpPosEcefRef::ecef_y_hp_mm | ret=r
        requires self.0@.len() == 28,
        ensures r == mul64(to64(sg(self.0@[21] as int, 0x80)), 1e-1f64),
%fn NavHpPosEcefRef::ecef_z_hp_mm | ret=r
        requires self.0@.len() == 28,
        ensures r == mul64(to64(sg(self.0@[22] as int, 0x80)), 1e-1f64),
%take struct NavVelNedRef
%take impl NavVelNedRef
%only impl NavVelNedRef = ground_speed heading_degrees
%fn NavVelNedRef::ground_speed | ret=r
        requires self.0@.len() == 36,
        ensures r == mul64(to64(le4(self.0@, 20)), 1e-2f64),
%fn NavVelNedRef::heading_degrees | ret=r
        requires self.0@.len() == 36,
        ensures r == mul64(to64(sg(le4(self.0@, 24), 0x80000000)), 1e-5f64),
%take struct NavPvtRef
%take impl NavPvtRef
%only impl NavPvtRef = lon_degrees lat_degrees height_msl ground_speed heading_degrees
%fn NavPvtRef::lon_degrees | ret=r
        requires self.0@.len() == 92,
        ensures r == mul64(to64(sg(le4(self.0@, 24), 0x80000000)), 1e-7f64),
%fn NavPvtRef::lat_degrees | ret=r
        requires self.0@.len() == 92,
        ensures r == mul64(to64(sg(le4(self.0@, 28), 0x80000000)), 1e-7f64),
%fn NavPvtRef::height_msl | ret=r
        requires self.0@.len() == 92,
        ensures r == mul64(to64(sg(le4(self.0@, 36), 0x80000000)), 1e-3f64),
%fn NavPvtRef::ground_speed | ret=r
        requires self.0@.len() == 92,
        ensures r == mul64(to64(le4(self.0@, 60)), 1e-3f64),
%fn NavPvtRef::heading_degrees | ret=r
        requires self.0@.len() == 92,
        ensures r == mul64(to64(sg(le4(self.0@, 64), 0x80000000)), 1e-5f64),
%take impl From<&NavPosLlhRef> for Position
%header impl From<&NavPosLlhRef> for Position
impl<'a> Position
%fn <From<&NavPosLlhRef> for Position>::from | ret=r | rename=from_NavPosLlh
        requires packet.0@.len() == 28,
        ensures r.lon == mul64(to64(sg(le4(packet.0@, 4), 0x80000000)), 1e-7f64), r.lat == mul64(to64(sg(le4(packet.0@, 8), 0x80000000)), 1e-7f64), r.alt == mul64(to64(sg(le4(packet.0@, 16), 0x80000000)), 1e-3f64),
%start <From<&NavPosLlhRef> for Position>::from
        broadcast use axiom_mul64_comm, axiom_add64_comm;
%take impl From<&NavPvtRef> for Position
%header impl From<&NavPvtRef> for Position
impl<'a> Position
%fn <From<&NavPvtRef> for Position>::from | ret=r | rename=from_NavPvt
        requires packet.0@.len() == 92,
        ensures r.lon == mul64(to64(sg(le4(packet.0@, 24), 0x80000000)), 1e-7f64), r.lat == mul64(to64(sg(le4(packet.0@, 28), 0x80000000)), 1e-7f64), r.alt == mul64(to64(sg(le4(packet.0@, 36), 0x80000000)), 1e-3f64),
%start <From<&NavPvtRef> for Position>::from
        broadcast use axiom_mul64_comm, axiom_add64_comm;
%take impl From<&NavVelNedRef> for Velocity
%header impl From<&NavVelNedRef> for Velocity
impl<'a> Velocity
%fn <From<&NavVelNedRef> for Velocity>::from | ret=r | rename=from_NavVelNed
        requires packet.0@.len() == 36,
        ensures r.speed == mul64(to64(le4(packet.0@, 20)), 1e-2f64), r.heading == mul64(to64(sg(le4(packet.0@, 24), 0x80000000)), 1e-5f64),
%start <From<&NavVelNedRef> for Velocity>::from
        broadcast use axiom_mul64_comm, axiom_add64_comm;
%take impl From<&NavPvtRef> for Velocity
%header impl From<&NavPvtRef> for Velocity
impl<'a> Velocity
%fn <From<&NavPvtRef> for Velocity>::from | ret=r | rename=from_NavPvt
        requires packet.0@.len() == 92,
        ensures r.speed == mul64(to64(le4(packet.0@, 60)), 1e-3f64), r.heading == mul64(to64(sg(le4(packet.0@, 64), 0x80000000)), 1e-5f64),
%start <From<&NavPvtRef> for Velocity>::from
        broadcast use axiom_mul64_comm, axiom_add64_comm;
%take impl From<&NavHpPosLlhRef> for Position
%header impl From<&NavHpPosLlhRef> for Position
impl<'a> Position
%fn <From<&NavHpPosLlhRef> for Position>::from | ret=r | rename=from_NavHpPosLlh
        requires packet.0@.len() == 36,
        ensures r.lon == add64(mul64(to64(sg(le4(packet.0@, 8), 0x80000000)), 1e-7f64), mul64(to64(sg(packet.0@[24] as int, 0x80)), 1e-9f64)), r.lat == add64(mul64(to64(sg(le4(packet.0@, 12), 0x80000000)), 1e-7f64), mul64(to64(sg(packet.0@[25] as int, 0x80)), 1e-9f64)), r.alt == add64(mul64(to64(sg(le4(packet.0@, 20), 0x80000000)), 1e-3f64), mul64(mul64(to64(sg(packet.0@[27] as int, 0x80)), 1e-1f64), 1e-3f64)),
%start <From<&NavHpPosLlhRef> for Position>::from
        broadcast use axiom_mul64_comm, axiom_add64_comm;
%take impl From<&NavHpPosEcefRef> for PositionECEF
%header impl From<&NavHpPosEcefRef> for PositionECEF
impl<'a> PositionECEF
%fn <From<&NavHpPosEcefRef> for PositionECEF>::from | ret=r | rename=from_NavHpPosEcef
        requires packet.0@.len() == 28,
        ensures r.x == mul64(1e-2f64, add64(to64(sg(le4(packet.0@, 8), 0x80000000)), mul64(0.1f64, mul64(to64(sg(packet.0@[20] as int, 0x80)), 1e-1f64)))), r.y == mul64(1e-2f64, add64(to64(sg(le4(packet.0@, 12), 0x80000000)), mul64(0.1f64, mul64(to64(sg(packet.0@[21] as int, 0x80)), 1e-1f64)))), r.z == mul64(1e-2f64, add64(to64(sg(le4(packet.0@, 16), 0x80000000)), mul64(0.1f64, mul64(to64(sg(packet.0@[22] as int, 0x80)), 1e-1f64)))),
%start <From<&NavHpPosEcefRef> for PositionECEF>::from
        broadcast use axiom_mul64_comm, axiom_add64_comm;
