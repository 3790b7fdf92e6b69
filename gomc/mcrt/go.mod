module gomc.local/mcrt

go 1.21
