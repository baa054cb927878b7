//! Every combination of fill, alignment, sign, alternate and zero flags (generated table).
#[macro_export]
macro_rules! specs {
    ($m:ident, $ty:tt, $($a:tt)*) => {
        $m!("", $ty, $($a)*);
        $m!("0", $ty, $($a)*);
        $m!("#", $ty, $($a)*);
        $m!("#0", $ty, $($a)*);
        $m!("+", $ty, $($a)*);
        $m!("+0", $ty, $($a)*);
        $m!("+#", $ty, $($a)*);
        $m!("+#0", $ty, $($a)*);
        $m!("-", $ty, $($a)*);
        $m!("-0", $ty, $($a)*);
        $m!("-#", $ty, $($a)*);
        $m!("-#0", $ty, $($a)*);
        $m!("<", $ty, $($a)*);
        $m!("<0", $ty, $($a)*);
        $m!("<#", $ty, $($a)*);
        $m!("<#0", $ty, $($a)*);
        $m!("<+", $ty, $($a)*);
        $m!("<+0", $ty, $($a)*);
        $m!("<+#", $ty, $($a)*);
        $m!("<+#0", $ty, $($a)*);
        $m!(">", $ty, $($a)*);
        $m!(">0", $ty, $($a)*);
        $m!(">#", $ty, $($a)*);
        $m!(">#0", $ty, $($a)*);
        $m!(">+", $ty, $($a)*);
        $m!(">+0", $ty, $($a)*);
        $m!(">+#", $ty, $($a)*);
        $m!(">+#0", $ty, $($a)*);
        $m!("^", $ty, $($a)*);
        $m!("^0", $ty, $($a)*);
        $m!("^#", $ty, $($a)*);
        $m!("^#0", $ty, $($a)*);
        $m!("^+", $ty, $($a)*);
        $m!("^+0", $ty, $($a)*);
        $m!("^+#", $ty, $($a)*);
        $m!("^+#0", $ty, $($a)*);
        $m!(" <", $ty, $($a)*);
        $m!(" <0", $ty, $($a)*);
        $m!(" <#", $ty, $($a)*);
        $m!(" <#0", $ty, $($a)*);
        $m!(" <+", $ty, $($a)*);
        $m!(" <+0", $ty, $($a)*);
        $m!(" <+#", $ty, $($a)*);
        $m!(" <+#0", $ty, $($a)*);
        $m!(" >", $ty, $($a)*);
        $m!(" >0", $ty, $($a)*);
        $m!(" >#", $ty, $($a)*);
        $m!(" >#0", $ty, $($a)*);
        $m!(" >+", $ty, $($a)*);
        $m!(" >+0", $ty, $($a)*);
        $m!(" >+#", $ty, $($a)*);
        $m!(" >+#0", $ty, $($a)*);
        $m!(" ^", $ty, $($a)*);
        $m!(" ^0", $ty, $($a)*);
        $m!(" ^#", $ty, $($a)*);
        $m!(" ^#0", $ty, $($a)*);
        $m!(" ^+", $ty, $($a)*);
        $m!(" ^+0", $ty, $($a)*);
        $m!(" ^+#", $ty, $($a)*);
        $m!(" ^+#0", $ty, $($a)*);
        $m!("*<", $ty, $($a)*);
        $m!("*<0", $ty, $($a)*);
        $m!("*<#", $ty, $($a)*);
        $m!("*<#0", $ty, $($a)*);
        $m!("*<+", $ty, $($a)*);
        $m!("*<+0", $ty, $($a)*);
        $m!("*<+#", $ty, $($a)*);
        $m!("*<+#0", $ty, $($a)*);
        $m!("*<-", $ty, $($a)*);
        $m!("*<-0", $ty, $($a)*);
        $m!("*<-#", $ty, $($a)*);
        $m!("*<-#0", $ty, $($a)*);
        $m!("*>", $ty, $($a)*);
        $m!("*>0", $ty, $($a)*);
        $m!("*>#", $ty, $($a)*);
        $m!("*>#0", $ty, $($a)*);
        $m!("*>+", $ty, $($a)*);
        $m!("*>+0", $ty, $($a)*);
        $m!("*>+#", $ty, $($a)*);
        $m!("*>+#0", $ty, $($a)*);
        $m!("*^", $ty, $($a)*);
        $m!("*^0", $ty, $($a)*);
        $m!("*^#", $ty, $($a)*);
        $m!("*^#0", $ty, $($a)*);
        $m!("*^+", $ty, $($a)*);
        $m!("*^+0", $ty, $($a)*);
        $m!("*^+#", $ty, $($a)*);
        $m!("*^+#0", $ty, $($a)*);
        $m!("0<", $ty, $($a)*);
        $m!("0<0", $ty, $($a)*);
        $m!("0<#", $ty, $($a)*);
        $m!("0<#0", $ty, $($a)*);
        $m!("0<+", $ty, $($a)*);
        $m!("0<+0", $ty, $($a)*);
        $m!("0<+#", $ty, $($a)*);
        $m!("0<+#0", $ty, $($a)*);
        $m!("0>", $ty, $($a)*);
        $m!("0>0", $ty, $($a)*);
        $m!("0>#", $ty, $($a)*);
        $m!("0>#0", $ty, $($a)*);
        $m!("0>+", $ty, $($a)*);
        $m!("0>+0", $ty, $($a)*);
        $m!("0>+#", $ty, $($a)*);
        $m!("0>+#0", $ty, $($a)*);
        $m!("0^", $ty, $($a)*);
        $m!("0^0", $ty, $($a)*);
        $m!("0^#", $ty, $($a)*);
        $m!("0^#0", $ty, $($a)*);
        $m!("0^+", $ty, $($a)*);
        $m!("0^+0", $ty, $($a)*);
        $m!("0^+#", $ty, $($a)*);
        $m!("0^+#0", $ty, $($a)*);
        $m!("é<", $ty, $($a)*);
        $m!("é<0", $ty, $($a)*);
        $m!("é<#", $ty, $($a)*);
        $m!("é<#0", $ty, $($a)*);
        $m!("é<+", $ty, $($a)*);
        $m!("é<+0", $ty, $($a)*);
        $m!("é<+#", $ty, $($a)*);
        $m!("é<+#0", $ty, $($a)*);
        $m!("é>", $ty, $($a)*);
        $m!("é>0", $ty, $($a)*);
        $m!("é>#", $ty, $($a)*);
        $m!("é>#0", $ty, $($a)*);
        $m!("é>+", $ty, $($a)*);
        $m!("é>+0", $ty, $($a)*);
        $m!("é>+#", $ty, $($a)*);
        $m!("é>+#0", $ty, $($a)*);
        $m!("é^", $ty, $($a)*);
        $m!("é^0", $ty, $($a)*);
        $m!("é^#", $ty, $($a)*);
        $m!("é^#0", $ty, $($a)*);
        $m!("é^+", $ty, $($a)*);
        $m!("é^+0", $ty, $($a)*);
        $m!("é^+#", $ty, $($a)*);
        $m!("é^+#0", $ty, $($a)*);
        $m!("🦀<", $ty, $($a)*);
        $m!("🦀<0", $ty, $($a)*);
        $m!("🦀<#", $ty, $($a)*);
        $m!("🦀<#0", $ty, $($a)*);
        $m!("🦀<+", $ty, $($a)*);
        $m!("🦀<+0", $ty, $($a)*);
        $m!("🦀<+#", $ty, $($a)*);
        $m!("🦀<+#0", $ty, $($a)*);
        $m!("🦀>", $ty, $($a)*);
        $m!("🦀>0", $ty, $($a)*);
        $m!("🦀>#", $ty, $($a)*);
        $m!("🦀>#0", $ty, $($a)*);
        $m!("🦀>+", $ty, $($a)*);
        $m!("🦀>+0", $ty, $($a)*);
        $m!("🦀>+#", $ty, $($a)*);
        $m!("🦀>+#0", $ty, $($a)*);
        $m!("🦀^", $ty, $($a)*);
        $m!("🦀^0", $ty, $($a)*);
        $m!("🦀^#", $ty, $($a)*);
        $m!("🦀^#0", $ty, $($a)*);
        $m!("🦀^+", $ty, $($a)*);
        $m!("🦀^+0", $ty, $($a)*);
        $m!("🦀^+#", $ty, $($a)*);
        $m!("🦀^+#0", $ty, $($a)*);
        $m!("-<", $ty, $($a)*);
        $m!("-<0", $ty, $($a)*);
        $m!("-<#", $ty, $($a)*);
        $m!("-<#0", $ty, $($a)*);
        $m!("-<+", $ty, $($a)*);
        $m!("-<+0", $ty, $($a)*);
        $m!("-<+#", $ty, $($a)*);
        $m!("-<+#0", $ty, $($a)*);
        $m!("->", $ty, $($a)*);
        $m!("->0", $ty, $($a)*);
        $m!("->#", $ty, $($a)*);
        $m!("->#0", $ty, $($a)*);
        $m!("->+", $ty, $($a)*);
        $m!("->+0", $ty, $($a)*);
        $m!("->+#", $ty, $($a)*);
        $m!("->+#0", $ty, $($a)*);
        $m!("-^", $ty, $($a)*);
        $m!("-^0", $ty, $($a)*);
        $m!("-^#", $ty, $($a)*);
        $m!("-^#0", $ty, $($a)*);
        $m!("-^+", $ty, $($a)*);
        $m!("-^+0", $ty, $($a)*);
        $m!("-^+#", $ty, $($a)*);
        $m!("-^+#0", $ty, $($a)*);
        $m!("+<", $ty, $($a)*);
        $m!("+<0", $ty, $($a)*);
        $m!("+<#", $ty, $($a)*);
        $m!("+<#0", $ty, $($a)*);
        $m!("+<+", $ty, $($a)*);
        $m!("+<+0", $ty, $($a)*);
        $m!("+<+#", $ty, $($a)*);
        $m!("+<+#0", $ty, $($a)*);
        $m!("+>", $ty, $($a)*);
        $m!("+>0", $ty, $($a)*);
        $m!("+>#", $ty, $($a)*);
        $m!("+>#0", $ty, $($a)*);
        $m!("+>+", $ty, $($a)*);
        $m!("+>+0", $ty, $($a)*);
        $m!("+>+#", $ty, $($a)*);
        $m!("+>+#0", $ty, $($a)*);
        $m!("+^", $ty, $($a)*);
        $m!("+^0", $ty, $($a)*);
        $m!("+^#", $ty, $($a)*);
        $m!("+^#0", $ty, $($a)*);
        $m!("+^+", $ty, $($a)*);
        $m!("+^+0", $ty, $($a)*);
        $m!("+^+#", $ty, $($a)*);
        $m!("+^+#0", $ty, $($a)*);
        $m!("#<", $ty, $($a)*);
        $m!("#<0", $ty, $($a)*);
        $m!("#<#", $ty, $($a)*);
        $m!("#<#0", $ty, $($a)*);
        $m!("#<+", $ty, $($a)*);
        $m!("#<+0", $ty, $($a)*);
        $m!("#<+#", $ty, $($a)*);
        $m!("#<+#0", $ty, $($a)*);
        $m!("#>", $ty, $($a)*);
        $m!("#>0", $ty, $($a)*);
        $m!("#>#", $ty, $($a)*);
        $m!("#>#0", $ty, $($a)*);
        $m!("#>+", $ty, $($a)*);
        $m!("#>+0", $ty, $($a)*);
        $m!("#>+#", $ty, $($a)*);
        $m!("#>+#0", $ty, $($a)*);
        $m!("#^", $ty, $($a)*);
        $m!("#^0", $ty, $($a)*);
        $m!("#^#", $ty, $($a)*);
        $m!("#^#0", $ty, $($a)*);
        $m!("#^+", $ty, $($a)*);
        $m!("#^+0", $ty, $($a)*);
        $m!("#^+#", $ty, $($a)*);
        $m!("#^+#0", $ty, $($a)*);
    };
}
pub const N: usize = 232;
