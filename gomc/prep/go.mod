module gomc.local/prep

go 1.21
