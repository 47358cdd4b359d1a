module vdrive

go 1.23
