SPECIFICATION OSpec
