SPECIFICATION SpecS
