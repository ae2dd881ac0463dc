module zzsim.local

go 1.21
