props! {
    p01 "p01" "p01.rs"
    p02 "p02" "p02.rs"
    p03 "p03" "p03.rs"
    p04 "p04" "p04.rs"
    p05 "p05" "p05.rs"
    p06 "p06" "p06.rs"
    p07 "p07" "p07.rs"
    p08 "p08" "p08.rs"
    p09 "p09" "p09.rs"
    p10 "p10" "p10.rs"
    p11 "p11" "p11.rs"
    p12 "p12" "p12.rs"
    p13 "p13" "p13.rs"
    p14 "p14" "p14.rs"
    p15 "p15" "p15.rs"
    p16 "p16" "p16.rs"
    p17 "p17" "p17.rs"
    p18 "p18" "p18.rs"
    p19 "p19" "p19.rs"
    p20 "p20" "p20.rs"
    p21 "p21" "p21.rs"
    p22 "p22" "p22.rs"
    p23 "p23" "p23.rs"
    p24 "p24" "p24.rs"
    p25 "p25" "p25.rs"
    p26 "p26" "p26.rs"
    p28 "p28" "p28.rs"
    p27 "p27" "p27.rs"
    p29 "p29" "p29.rs"
    p30 "p30" "p30.rs"
    p31 "p31" "p31.rs"
    p32 "p32" "p32.rs"
    p33 "p33" "p33.rs"
    p34 "p34" "p34.rs"
    p35 "p35" "p35.rs"
    p36 "p36" "p36.rs"
    p37 "p37" "p37.rs"
    p38 "p38" "p38.rs"
}
