SPECIFICATION SpecE
