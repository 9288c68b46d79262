module instr

go 1.22
