SPECIFICATION SpecCV
