module gocheck

go 1.23
