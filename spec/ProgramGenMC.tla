------------------------------ MODULE ProgramGenMC ---------------------------
EXTENDS ProgramGen
MCTypes == {"u8", "i16", "u32", "i32", "f32", "u64", "i64", "f64"}
MCSizeOf == [t \in MCTypes |-> CASE t = "u8" -> 1 [] t = "i16" -> 2 [] t \in {"u32", "i32", "f32"} -> 4 [] OTHER -> 8]
MCFns == {"2a64", "2a128", "1le", "1be", "0le", "0be", "aes", "avx", "avx2"}
Free == {<< >>}
Brief == {<< "w", "i", "u", "f" >>, << "w", "i", "u", "w", "f" >>, << "i", "w", "u", "f", "w" >>, << "w", "w", "i", "u", "w", "u", "w", "f" >>,
          << "w", "h", "w" >>, << "w", "w", "h", "w", "h" >>, << "w", "h", "w", "h", "w", "h" >>}
=============================================================================
