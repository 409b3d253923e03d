OVERRIDE.update({"strccount": "P08", "LocklessBlockPolicy": "P12", "asmbts": "P15", "4-byte asmcas": "P15", "LinkedArray move": "P10"})
