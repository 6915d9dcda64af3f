SPECIFICATION GSpec
