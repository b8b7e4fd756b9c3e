package checks

// Golden holds files written by the original build.
var Golden = map[string]string{
	"empty time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false":       "AgAAAAAAAAAAAAA=",
	"empty time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":        "AgABYmBgYGBgYGAADAA=",
	"empty time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false":       "AgAAAAAAAAAAAAA=",
	"empty time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":        "AgABYmBgYGBgYGAADAA=",
	"empty time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=true":         "AgABYmBgYGBgYGAADAA=",
	"empty time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=false":        "AgAAAAAAAAAAAAA=",
	"empty time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=true":         "AgABYmBgYGBgYGAADAA=",
	"empty time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=false":        "AgAAAAAAAAAAAAA=",
	"named time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false":       "AgAAAAJpZAZhIG5hbWUAAAAAAA==",
	"named time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":        "AgABYmDKTGFLVMhLzE1lYGBgYAAMAA==",
	"named time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false":       "AgAAAAJpZAZhIG5hbWUAAAAAAA==",
	"named time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":        "AgABYmDKTGFLVMhLzE1lYGBgYAAMAA==",
	"named time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=true":         "AgABYmDKTGFLVMhLzE1lYGBgYAAMAA==",
	"named time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=false":        "AgAAAAJpZAZhIG5hbWUAAAAAAA==",
	"named time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=true":         "AgABYmDKTGFLVMhLzE1lYGBgYAAMAA==",
	"named time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=false":        "AgAAAAJpZAZhIG5hbWUAAAAAAA==",
	"metadata 0 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false":  "AgAAAwJrMAJrMQJrMgFpAAMCAAECAADAPwADc3RyAfv///8AAAAA",
	"metadata 0 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":   "AgABYmbKNmDKNmTKNmLMZGBmYGRiYC4uKWL8/f//fyYGhgP2DAwMDIABAA==",
	"metadata 0 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false":  "AgAAAwJrMAJrMQJrMgFpAAMAAQIAA3N0cgH7////AgAAwD8AAAAA",
	"metadata 0 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":   "AgABYmbKNmTKNmLKNmDMZGBmYmBkYC4uKWL8/f//fyYGhgP2DAwMDIABAA==",
	"metadata 3 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":   "AgABYmbKNmbKNmHKNmXMZGBmYGRiZmE9wcDAwAAYAA==",
	"metadata 3 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":  "AgAAAwJrMwJrNAJrNQFpAAMAAQIDBAXIAAAAAA==",
	"metadata 3 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":   "AgABYmbKNmbKNmHKNmXMZGBmYGRiZmE9wcDAwAAYAA==",
	"metadata 3 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":  "AgAAAwJrMwJrNAJrNQFpAAMCAAEFyAMEAAAAAA==",
	"metadata 6 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false":  "AgAAAwJrNgJrNwJrOAFpAAMCAAELAgFhAWIBAQAAAAsBAWMAAWQGAAAAAAAA8D8AAAAAAAAAQAcAAAAAAADwPwAAAAAAAABAAAAAAAAACEAAAAAA",
	"metadata 6 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":   "AgABXMi7DcIwGAbA+35LgOR9gC5eJY8m8vIZIX3aazW/NX81/zk1qRdwLYDxfgLwGb2yZkvQk10OuAcA",
	"metadata 6 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false":  "AgAAAwJrNwJrOAJrNgFpAAMAAQIHAAAAAAAA8D8AAAAAAAAAQAAAAAAAAAhACwIBYQFiAQEAAAALAQFjAAFkBgAAAAAAAPA/AAAAAAAAAEAAAAAA",
	"metadata 6 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":   "AgABXMi7DcIwGAbA+35LgOR9gC5eJY8m8vIZIX3aazX/Nb81fzm1lBdwLYDxfgLwGb2yZe3JLkcCuAcA",
	"metadata 9 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":   "AgABYmbKtmTONjRgzjY0ZMxkYGZgZOJhYFjCbrielYGXianYgIGP6ef///9tnPgZQAAwAA==",
	"metadata 9 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":  "AgAAAwJrOQNrMTADazExAWkAAwABAgwAAKQHMa8FAA0CAnMwAA4C+f///zxCDwAAAAAA",
	"metadata 9 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":   "AgABYmbKtmTONjRgzjY0ZMxkYGZgZOJhYFjCbrielYGXianYgIGP6ef///9tnPgZQAAwAA==",
	"metadata 9 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":  "AgAAAwJrOQNrMTADazExAWkAAwECAA0CAnMwAA4C+f///zxCDwAMAACkBzGvBQAAAAAA",
	"metadata 12 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgAAAwNrMTIDazEzA2sxNAFpAAMBAgATAZqZmZmZmbk/AAAAAAAAAIAUATMzMzMzM9M/AAAAAAAAAIAAAAAAZc3NQQ8BAACAvwAAAAA=",
	"metadata 12 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgABYmbONjRizjY0Zs42NGHMZGBmYGTiZ2RgaNgvzDhrJgjstGeAgAYRRmMwuAwXYWBgYEg9e9aRgYGBATAA",
	"metadata 12 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgAAAwNrMTIDazEzA2sxNAFpAAMAAQIPAQAAgL8TAZqZmZmZmbk/AAAAAAAAAIAUATMzMzMzM9M/AAAAAAAAAIAAAAAAZc3NQQAAAAA=",
	"metadata 12 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgABYmbONjRizjY0Zs42NGHMZGBmYGTiZ2RgaNgvzDhrJgjstGeAgAYRRmMwuAwXYWBgYEg9e9aRgYGBATAA",
	"metadata 15 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgABYmbONjRlzjY0Y842NGfMZGBmYGSSZGRgWMJuuJ6VQYKJiTGTKduAkQEEGA0YBJgZGMEcwAA=",
	"metadata 15 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgAAAwNrMTcDazE1A2sxNgFpAAMCAAEYAgICazABaQABMAEAAAAAABADAAEBGQEAAKQHMa8FAAAAAAA=",
	"metadata 15 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgABYmbONjRlzjY0Y842NGfMZGBmYGSSZGRgWMJuuJ6VQYKJiTGTKduAkQEEGA0YBJgZGMEcwAA=",
	"metadata 15 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgAAAwNrMTUDazE2A2sxNwFpAAMAAQIZAQAApAcxrwUAGAICAmswAWkAATABAAAAAAAQAwABAQAAAAA=",
	"metadata 18 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgAAAQNrMTgBaQABABIDAB8+AAAAAA==",
	"metadata 18 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgABYmTONrRgzGRgZBBiZpC3Y2BgYAAMAA==",
	"metadata 18 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgAAAQNrMTgBaQABABIDAB8+AAAAAA==",
	"metadata 18 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgABYmTONrRgzGRgZBBiZpC3Y2BgYAAMAA==",
	"positions 0 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAWJgYMxkYGBkYC7IL2ZgYGRgYGAADAA=",
	"positions 0 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwEAAQEAAAA=",
	"positions 0 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAWJgYMxkYGBkYC7IL2ZiYGRiYGAADAA=",
	"positions 0 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIAAQMAAAA=",
	"positions 0 time1 pos1 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwAAAQAAAAA=",
	"positions 0 time1 pos1 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAWJgYMxkYGBkYC7IL2ZkYGRkYGAADAA=",
	"positions 0 time1 pos1 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIAAQIAAAA=",
	"positions 0 time1 pos1 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAWJgYMxkYGBkYC7IL2ZiYGRmYGAADAA=",
	"positions 0 time2 pos2 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAWJgYMxkYGBkYC7IL2ZgYGRgYGAADAA=",
	"positions 0 time2 pos2 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwEAAQEAAAA=",
	"positions 0 time2 pos2 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAWJgYMxkYGBkYC7IL2ZiYGRiYGAADAA=",
	"positions 0 time2 pos2 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIAAQMAAAA=",
	"positions 0 time2 pos3 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwAAAQAAAAA=",
	"positions 0 time2 pos3 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAWJgYMxkYGBkYC7IL2ZkYGRkYGAADAA=",
	"positions 0 time2 pos3 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIAAQIAAAA=",
	"positions 0 time2 pos3 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAWJgYMxkYGBkYC7IL2ZiYGRmYGAADAA=",
	"rotations 0 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FgYGRgYGAADAA=",
	"rotations 0 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAEAAQEAAAA=",
	"rotations 0 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FiYGRiYGAADAA=",
	"rotations 0 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAIAAQIAAAA=",
	"rotations 0 time1 pos0 euler1 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAAAAQAAAAA=",
	"rotations 0 time1 pos0 euler1 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FkYGRkYGAADAA=",
	"rotations 0 time1 pos0 euler1 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAIAAQIAAAA=",
	"rotations 0 time1 pos0 euler1 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FiYGRiYGAADAA=",
	"rotations 0 time2 pos0 euler2 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FgYGRgYGAADAA=",
	"rotations 0 time2 pos0 euler2 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAEAAQEAAAA=",
	"rotations 0 time2 pos0 euler2 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FiYGRiYGAADAA=",
	"rotations 0 time2 pos0 euler2 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAIAAQIAAAA=",
	"floats 0 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAAAAQAAAAA=",
	"floats 0 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFkYGRkYGAADAA=",
	"floats 0 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAIACQIAAIB/AACA/wAAAA==",
	"floats 0 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFi4GRiYGioZ2Bo+M/AwAAYAA==",
	"floats 0 time1 pos0 euler0 float1 compress=false as time0 pos0 euler0 float0 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFgYGRgYGAADAA=",
	"floats 0 time1 pos0 euler0 float1 compress=false as time1 pos1 euler1 float1 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAEAAQEAAAA=",
	"floats 0 time1 pos0 euler0 float1 compress=false as time2 pos2 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFi4GRiYGioZ2Bo+M/AwAAYAA==",
	"floats 0 time1 pos0 euler0 float1 compress=false as time2 pos3 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAIACQIAAIB/AACA/wAAAA==",
	"floats 0 time2 pos0 euler0 float2 compress=false as time0 pos0 euler0 float0 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAAAAQAAAAA=",
	"floats 0 time2 pos0 euler0 float2 compress=false as time1 pos1 euler1 float1 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFkYGRkYGAADAA=",
	"floats 0 time2 pos0 euler0 float2 compress=false as time2 pos2 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAIACQIAAIB/AACA/wAAAA==",
	"floats 0 time2 pos0 euler0 float2 compress=false as time2 pos3 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFi4GRiYGioZ2Bo+M/AwAAYAA==",
	"enums 0 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":      "AgENcmVjb2x1ZGUuZW51bQAB4mBi8s9j9k9LY2DMZGBgZGBOzctlYGBmYmBkYGAADAA=",
	"enums 0 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":     "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0BAAMCAAEAAAA=",
	"enums 0 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":      "AgENcmVjb2x1ZGUuZW51bQAB4mBi8s9j9k9LY2DMZGBgZGBOzctlYmBmYmBkYGAADAA=",
	"enums 0 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":     "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0CAAMCAAEAAAA=",
	"enums 0 time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":      "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0AAAMCAAEAAAA=",
	"enums 0 time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":       "AgENcmVjb2x1ZGUuZW51bQAB4mBi8s9j9k9LY2DMZGBgZGBOzctlZGBmYmBkYGAADAA=",
	"enums 0 time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":      "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0CAAMCAAEAAAA=",
	"enums 0 time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":       "AgENcmVjb2x1ZGUuZW51bQAB4mBi8s9j9k9LY2DMZGBgZGBOzctlYmBmYmBkYGAADAA=",
	"events 0 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":     "AgEOcmVjb2x1ZGUuZXZlbnQAAWJiYGBgzGRgYGRgTi0rYWBgYGBgAAwA",
	"events 0 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":    "AgEOcmVjb2x1ZGUuZXZlbnQAAAIAAAABaQAAAQADZXZ0AQAAAAAA",
	"events 0 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZXZlbnQAAWJiYGBgzGRgYGRgTi0rYWJgYGBgAAwA",
	"events 0 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZXZlbnQAAAIAAAABaQAAAQADZXZ0AgAAAAAA",
	"events 0 time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":     "AgEOcmVjb2x1ZGUuZXZlbnQAAAIAAAABaQAAAQADZXZ0AAAAAAAA",
	"events 0 time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":      "AgEOcmVjb2x1ZGUuZXZlbnQAAWJiYGBgzGRgYGRgTi0rYWRgYGBgAAwA",
	"events 0 time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":     "AgEOcmVjb2x1ZGUuZXZlbnQAAAIAAAABaQAAAQADZXZ0AgAAAAAA",
	"events 0 time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":      "AgEOcmVjb2x1ZGUuZXZlbnQAAWJiYGBgzGRgYGRgTi0rYWJgYGBgAAwA",
	"positions 1 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAUTGsQ0AEAAEwPuYwjSsoyKxuBFU4qojgyhrbgFOq94A3XcHAA==",
	"positions 1 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwEBAACAPw0BAACAPwAAAEAAAAAAAAAA",
	"positions 1 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AARTEsREAERQFwH3/4quJdkTMaEDpRrJkEN+au8Jpfz3RAXcA",
	"positions 1 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIBAACAPw0DAACAPwAAAEAAAAAAAAAA",
	"positions 1 time1 pos1 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwABAAAAAAAA8D8ZAAAAAAAAAPA/AAAAAAAAAEAAAAAAAAAAAAAAAA==",
	"positions 1 time1 pos1 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AARzEsQ0AEBQFwHtRm4l1VCQWMLrkN0cW0c6+CW/0EhPwBwA=",
	"positions 1 time1 pos1 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIBAACAPw0CAACAPwAAAEAAAAAAAAAA",
	"positions 1 time1 pos1 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AARTEsREAERQFwH3346uJdkTMaEDpRrJkELXm/sJpfz3RAXcA",
	"positions 1 time2 pos2 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAUTGsQ0AEAAEwPuYwjSsoyKxuBFU4qojgyhrbgFOq94A3XcHAA==",
	"positions 1 time2 pos2 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwEBAACAPw0BAACAPwAAAEAAAAAAAAAA",
	"positions 1 time2 pos2 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AARTEsREAERQFwH3/4quJdkTMaEDpRrJkEN+au8Jpfz3RAXcA",
	"positions 1 time2 pos2 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIBAACAPw0DAACAPwAAAEAAAAAAAAAA",
	"positions 1 time2 pos3 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwABAAAAAAAA8D8ZAAAAAAAAAPA/AAAAAAAAAEAAAAAAAAAAAAAAAA==",
	"positions 1 time2 pos3 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AARzEsQ0AEBQFwHtRm4l1VCQWMLrkN0cW0c6+CW/0EhPwBwA=",
	"positions 1 time2 pos3 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIBAACAPw0CAACAPwAAAEAAAAAAAAAA",
	"positions 1 time2 pos3 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AARTEsREAERQFwH3346uJdkTMaEDpRrJkELXm/sJpfz3RAXcA",
	"rotations 1 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAQTAQRGAIBAAwL0xiFHuUtjBlw5DAKLyIAARWOIlXO3rAph5A3YCxlOA9Rc4AwA=",
	"rotations 1 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAEBAAAAPw0BAACAPwAAtEIAIIdDAAAA",
	"rotations 1 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FiZGBgsOdlYmBosGdg2OLEoNDuzMDAABgA",
	"rotations 1 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAIBAAAAPw0CAACAPwAAtEIAIIdDAAAA",
	"rotations 1 time1 pos0 euler1 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAABAAAAAAAA4D8fAAAAAAAAAPA/AAAAAAAAAIBWQAAAAAAAAADkcEAAAAAAAA==",
	"rotations 1 time1 pos0 euler1 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FkZGBgsOdlZGBosGdg2OLEoNDuzMDAABgA",
	"rotations 1 time1 pos0 euler1 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAIBAAAAPw0CAACAPwAAtEIAIIdDAAAA",
	"rotations 1 time1 pos0 euler1 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FiZGBgsOdlYmBosGdg2OLEoNDuzMDAABgA",
	"rotations 1 time2 pos0 euler2 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAQTAQRGAIBAAwL0xiFHuUtjBlw5DAKLyIAARWOIlXO3rAph5A3YCxlOA9Rc4AwA=",
	"rotations 1 time2 pos0 euler2 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAEBAAAAPw0BAACAPwAAtEIAIIdDAAAA",
	"rotations 1 time2 pos0 euler2 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FiZGBgsOdlYmBosGdg2OLEoNDuzMDAABgA",
	"rotations 1 time2 pos0 euler2 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAIBAAAAPw0CAACAPwAAtEIAIIdDAAAA",
	"floats 1 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAABAAAAAAAAAAAJAAAAAAAAAPC/AAAA",
	"floats 1 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFkZGBgYGBlZGBo2M/AwAAYAA==",
	"floats 1 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAIBAAAAAAsCAACAvwAAgL///wAAAA==",
	"floats 1 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFiZGBgYOBmYmBo2A/C//8zMDAABgA=",
	"floats 1 time1 pos0 euler0 float1 compress=false as time0 pos0 euler0 float0 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAQTAsQkAIAwEwHusXFQQLN0vK2WEHLnEOu8LwAZ0YQYA",
	"floats 1 time1 pos0 euler0 float1 compress=false as time1 pos1 euler1 float1 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAEBAAAAAAUBAACAvwAAAA==",
	"floats 1 time1 pos0 euler0 float1 compress=false as time2 pos2 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFiZGBgYOBmYmBo2A/C//8zMDAABgA=",
	"floats 1 time1 pos0 euler0 float1 compress=false as time2 pos3 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAIBAAAAAAsCAACAvwAAgL///wAAAA==",
	"floats 1 time2 pos0 euler0 float2 compress=false as time0 pos0 euler0 float0 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAABAAAAAAAAAAAJAAAAAAAAAPC/AAAA",
	"floats 1 time2 pos0 euler0 float2 compress=false as time1 pos1 euler1 float1 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFkZGBgYGBlZGBo2M/AwAAYAA==",
	"floats 1 time2 pos0 euler0 float2 compress=false as time2 pos2 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAIBAAAAAAsCAACAvwAAgL///wAAAA==",
	"floats 1 time2 pos0 euler0 float2 compress=false as time2 pos3 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAWJgYMxkYGBkYE7LKWFiZGBgYOBmYmBo2A/C//8zMDAABgA=",
	"enums 1 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":      "AgENcmVjb2x1ZGUuZW51bQABBMCxEYBQCAWwPL6F2zGF3FnI/qW5q3pPz8hLnGc/AbhKgn8A",
	"enums 1 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":     "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0BAQAAAAAEAgABAQAAAA==",
	"enums 1 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":      "AgENcmVjb2x1ZGUuZW51bQABBMCxDQAgDAPBt0PBdpmCSBR4/5Lbdqd6Bl0QdfIsgGUk4A8A",
	"enums 1 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":     "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0CAQAAAAAEAgABAQAAAA==",
	"enums 1 time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":      "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0AAQAAAAAAAAAABAIAAQEAAAA=",
	"enums 1 time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":       "AgENcmVjb2x1ZGUuZW51bQAB4mBi8s9j9k9LY2DMZGBgZGBOzctlZGRgYGBgYWIAMwADAA==",
	"enums 1 time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":      "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0CAQAAAAAEAgABAQAAAA==",
	"enums 1 time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":       "AgENcmVjb2x1ZGUuZW51bQABBMCxDQAgDAPBt0PBdpmCSBR4/5Lbdqd6Bl0QdfIsgGUk4A8A",
	"events 1 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":     "AgEOcmVjb2x1ZGUuZXZlbnQAAQTAsQ1AQABA0fcp2Mo0IqLQiLlvhHtby/XWo5us5/8JGMcuAeYA",
	"events 1 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":    "AgEOcmVjb2x1ZGUuZXZlbnQAAAcBAmdvAQFrAAFpAAABAANldnQBAQAAgD8IAAEAAQAAAAAAAAA=",
	"events 1 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZXZlbnQAAQTAsQ1AQABA0fdPwVamERGFRtRGv7c2zqduXWQ5vnfEv28SYA4A",
	"events 1 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZXZlbnQAAAcBAmdvAQFrAAFpAAABAANldnQCAQAAgD8IAAEAAQAAAAAAAAA=",
	"events 1 time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":     "AgEOcmVjb2x1ZGUuZXZlbnQAAAcBAmdvAQFrAAFpAAABAANldnQAAQAAAAAAAPA/CAABAAEAAAAAAAAA",
	"events 1 time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":      "AgEOcmVjb2x1ZGUuZXZlbnQAAQTAsQ1AQABA0fcp2Mo0IqLQiPpGv7e1XG89usl6/l8xjl0CzAEA",
	"events 1 time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":     "AgEOcmVjb2x1ZGUuZXZlbnQAAAcBAmdvAQFrAAFpAAABAANldnQCAQAAgD8IAAEAAQAAAAAAAAA=",
	"events 1 time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":      "AgEOcmVjb2x1ZGUuZXZlbnQAAQTAsQ1AQABA0fdPwVamERGFRtRGv7c2zqduXWQ5vnfEv28SYA4A",
	"positions 3 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAVzKMRGAQAwAwf15BFDgJ2mRQgUzGEZCJFDnr91jXAzzuV8TqAC2BPY8dZF62f0L4Fi+CvwDAA==",
	"positions 3 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwEDAACAPwAAIEAAAIBAJQEAAIA/AAAAQAAAAAAAAABAAACAPwAAAD8AAKBAAAAAAAAAgD8AAAA=",
	"positions 3 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAUTHsQ2EMBQFwbFd0VXw3c5FINGAO4POHgESbLRD+9OMfTv6YBVXJcmvP1onijm/X4UJQrzdAwA=",
	"positions 3 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIDAACAPwAAwD//////KwMAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAAAAAAAAA=",
	"positions 3 time1 pos1 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwADAAAAAAAA8D8AAAAAAAAEQAAAAAAAABBASQAAAAAAAADwPwAAAAAAAABAAAAAAAAAAAAAAAAAAAAAQAAAAAAAAPA/AAAAAAAA4D8AAAAAAAAUQAAAAAAAAAAAAAAAAAAA8D8AAAA=",
	"positions 3 time1 pos1 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AASzHMQ2AMBAF0HepERZ09NthggQDlYJUht74qIsynvutwZocYeWsLQGkPfkC7X8A",
	"positions 3 time1 pos1 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIDAACAPwAAwD//////MQIAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAA/wAAAAAAAAAAAAA=",
	"positions 3 time1 pos1 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAUTHMQ2AQAwAwHteDiJaO0yQYKDOwFlZSH67YxwM8zrvbVLBG93d+796EGQuVyBBA74BAA==",
	"positions 3 time2 pos2 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAVzKMRGAQAwAwf15BFDgJ2mRQgUzGEZCJFDnr91jXAzzuV8TqAC2BPY8dZF62f0L4Fi+CvwDAA==",
	"positions 3 time2 pos2 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwEDAACAPwAAIEAAAIBAJQEAAIA/AAAAQAAAAAAAAABAAACAPwAAAD8AAKBAAAAAAAAAgD8AAAA=",
	"positions 3 time2 pos2 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAUTHsQ2EMBQFwbFd0VXw3c5FINGAO4POHgESbLRD+9OMfTv6YBVXJcmvP1onijm/X4UJQrzdAwA=",
	"positions 3 time2 pos2 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIDAACAPwAAwD//////KwMAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAAAAAAAAA=",
	"positions 3 time2 pos3 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwADAAAAAAAA8D8AAAAAAAAEQAAAAAAAABBASQAAAAAAAADwPwAAAAAAAABAAAAAAAAAAAAAAAAAAAAAQAAAAAAAAPA/AAAAAAAA4D8AAAAAAAAUQAAAAAAAAAAAAAAAAAAA8D8AAAA=",
	"positions 3 time2 pos3 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AASzHMQ2AMBAF0HepERZ09NthggQDlYJUht74qIsynvutwZocYeWsLQGkPfkC7X8A",
	"positions 3 time2 pos3 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgERcmVjb2x1ZGUucG9zaXRpb24AAAAAAWkAAAEAA3BvcwIDAACAPwAAwD//////MQIAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAA/wAAAAAAAAAAAAA=",
	"positions 3 time2 pos3 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgERcmVjb2x1ZGUucG9zaXRpb24AAUTHMQ2AQAwAwHteDiJaO0yQYKDOwFlZSH67YxwM8zrvbVLBG93d+796EGQuVyBBA74BAA==",
	"rotations 3 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAXzJsRFAQBiE0Xdz+vLrQCRRgYgxClCaUgQKEAolJ3TR7nyPNJHkdd5k4GyBp2wTI+AuxT4E4Fq+p4uKHv2/vgMA",
	"rotations 3 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAEDAAAAPwAAwD8AACBAJQEAAIA/AAC0QgAgh0MAAAhCAAC0QgAgh0MAAIZCAAC0QgAgh0MAAAA=",
	"rotations 3 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FiZmBgsGdgaLD/////f2EmhlwmBuYtEltA5BdVEMnAwAAYAA==",
	"rotations 3 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAIDAAAAPwAAgD//////EwIAbQIAA7QYtAIAA7T0JQIAA7QAAAA=",
	"rotations 3 time1 pos0 euler1 float0 compress=false as time0 pos0 euler0 float0 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAADAAAAAAAA4D8AAAAAAAD4PwAAAAAAAARAWwAAAAAAAADwPwAAAAAAAACAVkAAAAAAAAAA5HBAAAAAAAAAAABBQAAAAAAAAACAVkAAAAAAAAAA5HBAAAAAAAAAAMBQQAAAAAAAAACAVkAAAAAAAAAA5HBAAAAAAAA=",
	"rotations 3 time1 pos0 euler1 float0 compress=false as time1 pos1 euler1 float1 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FkZmBgsGdgOGDPwKDgoMrIwNBgz8CwxYlBod2ZgYHDCcFuQ2IzAAYA",
	"rotations 3 time1 pos0 euler1 float0 compress=false as time2 pos2 euler2 float2 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAIDAAAAPwAAgD//////EwIAbQIAA7QYtAIAA7T0JQIAA7QAAAA=",
	"rotations 3 time1 pos0 euler1 float0 compress=false as time2 pos3 euler2 float2 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FiZmBgsGdgaLD/////f2EmhlwmBuYtEltA5BdVEMnAwAAYAA==",
	"rotations 3 time2 pos0 euler2 float0 compress=false as time0 pos0 euler0 float0 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAXzJsRFAQBiE0Xdz+vLrQCRRgYgxClCaUgQKEAolJ3TR7nyPNJHkdd5k4GyBp2wTI+AuxT4E4Fq+p4uKHv2/vgMA",
	"rotations 3 time2 pos0 euler2 float0 compress=false as time1 pos1 euler1 float1 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAEDAAAAPwAAwD8AACBAJQEAAIA/AAC0QgAgh0MAAAhCAAC0QgAgh0MAAIZCAAC0QgAgh0MAAAA=",
	"rotations 3 time2 pos0 euler2 float0 compress=false as time2 pos2 euler2 float2 compress=true":  "AgEOcmVjb2x1ZGUuZXVsZXIAAWJgYMxkYGBkYC7KL2FiZmBgsGdgaLD/////f2EmhlwmBuYtEltA5BdVEMnAwAAYAA==",
	"rotations 3 time2 pos0 euler2 float0 compress=false as time2 pos3 euler2 float2 compress=false": "AgEOcmVjb2x1ZGUuZXVsZXIAAAAAAWkAAAEAA3JvdAIDAAAAPwAAgD//////EwIAbQIAA7QYtAIAA7T0JQIAA7QAAAA=",
	"floats 3 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAADAAAAAAAAAAAAAAAAAADwPwAAAAAAAABAGQAAAAAAAADwvwAAAAAAAPg/AAAAAAAAEEAAAAA=",
	"floats 3 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAQTAQQmAAAwF0PfZ2UxbGkHwaIA102g+chF13k8K2MYcYV++Zgf/AA==",
	"floats 3 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAIDAAAAAAAAgD//////DwIAAIC/AACAQAAAAQD//wAAAA==",
	"floats 3 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAQTAUQ2AMAwFwOsqAEmghoSETwTUGdLejnoofb/famDOJDkW8zMXJcEeAA==",
	"floats 3 time1 pos0 euler0 float1 compress=false as time0 pos0 euler0 float0 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAVTIoQ2AMBAAwPv8Alim+Z+GhATJfqyErKyq6MkjbkJezytt/gL0ueYDRgFHYw4A",
	"floats 3 time1 pos0 euler0 float1 compress=false as time1 pos1 euler1 float1 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAEDAAAAAAAAgD8AAABADQEAAIC/AADAPwAAgEAAAAA=",
	"floats 3 time1 pos0 euler0 float1 compress=false as time2 pos2 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAQTAUQ2AMAwFwOsqAEmghoSETwTUGdLejnoofb/famDOJDkW8zMXJcEeAA==",
	"floats 3 time1 pos0 euler0 float1 compress=false as time2 pos3 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAIDAAAAAAAAgD//////DwIAAIC/AACAQAAAAQD//wAAAA==",
	"floats 3 time2 pos0 euler0 float2 compress=false as time0 pos0 euler0 float0 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAADAAAAAAAAAAAAAAAAAADwPwAAAAAAAABAGQAAAAAAAADwvwAAAAAAAPg/AAAAAAAAEEAAAAA=",
	"floats 3 time2 pos0 euler0 float2 compress=false as time1 pos1 euler1 float1 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAQTAQQmAAAwF0PfZ2UxbGkHwaIA102g+chF13k8K2MYcYV++Zgf/AA==",
	"floats 3 time2 pos0 euler0 float2 compress=false as time2 pos2 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZmxvYXQAAAAAAWkAAAEAA2ZsdAIDAAAAAAAAgD//////DwIAAIC/AACAQAAAAQD//wAAAA==",
	"floats 3 time2 pos0 euler0 float2 compress=false as time2 pos3 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZmxvYXQAAQTAUQ2AMAwFwOsqAEmghoSETwTUGdLejnoofb/famDOJDkW8zMXJcEeAA==",
	"enums 3 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":      "AgENcmVjb2x1ZGUuZW51bQABVMBBDYAwEATA2buE4AocVAVNeFDtSODN7FVj9ZhTbqKv9Wg/7wE4t5IIvgEA",
	"enums 3 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":     "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0BAwAAAAAAAIA/AAAAQAYCAAEBAAEAAAA=",
	"enums 3 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":      "AgENcmVjb2x1ZGUuZW51bQAB4mBi8s9j9k9LY2DMZGBgZGBOzctlYmYAgwb7/////2djYmBkZGBkYGAADAA=",
	"enums 3 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":     "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0CAwAAAAAAAIA//////wYCAAEBAAEAAAA=",
	"enums 3 time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":      "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0AAwAAAAAAAAAAAAAAAAAA8D8AAAAAAAAAQAYCAAEBAAEAAAA=",
	"enums 3 time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":       "AgENcmVjb2x1ZGUuZW51bQABBMBRDYAwDAXAe21CcAUOpoIlfDANSN+dVWP1mFNeop/1pYH/wn2URLAHAA==",
	"enums 3 time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":      "AgENcmVjb2x1ZGUuZW51bQAACAICT24DT2ZmAAFpAAABAANlbm0CAwAAAAAAAIA//////wYCAAEBAAEAAAA=",
	"enums 3 time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":       "AgENcmVjb2x1ZGUuZW51bQAB4mBi8s9j9k9LY2DMZGBgZGBOzctlYmYAgwb7/////2djYmBkZGBkYGAADAA=",
	"events 3 time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":     "AgEOcmVjb2x1ZGUuZXZlbnQAAQTAsQ3CMBQFwHvfFHR0DMICeBmEkAsj2crcGSH3qPrO29rzXxk1XvIj2ufYGnC+AR2496cIhJIUZOEaAA==",
	"events 3 time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":    "AgEOcmVjb2x1ZGUuZXZlbnQAAA8CAmdvBHN0b3ACAWsCazIAAWkAAAEAA2V2dAEDAACAPwAAAEAAAEBAFgABAAEAAAAAAQAAAgABAQIAAAAAAXMAAAA=",
	"events 3 time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":     "AgEOcmVjb2x1ZGUuZXZlbnQAARzGMQqAMBAF0fk/9nYexAt4GhFJESHB2puvbIoZ3mpfbemjPVZ13dENopzvcIHvyCIiNoSAnJE83YF/AA==",
	"events 3 time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":    "AgEOcmVjb2x1ZGUuZXZlbnQAAA8CAmdvBHN0b3ACAWsCazIAAWkAAAEAA2V2dAIDAACAPwAAgD//////FgABAAEAAAAAAQAAAgABAQIAAAAAAXMAAAA=",
	"events 3 time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":     "AgEOcmVjb2x1ZGUuZXZlbnQAAA8CAmdvBHN0b3ACAWsCazIAAWkAAAEAA2V2dAADAAAAAAAA8D8AAAAAAAAAQAAAAAAAAAhAFgABAAEAAAAAAQAAAgEAAAFzAQIAAAAAAAA=",
	"events 3 time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":      "AgEOcmVjb2x1ZGUuZXZlbnQAAQTAsQ3CMBQFwHvf9HQMwgJ4GYSQC0eylTqj555Vv/lYex6VUeMtf6J9z53G9UGn95cIhApZKeAeAA==",
	"events 3 time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":     "AgEOcmVjb2x1ZGUuZXZlbnQAAA8CAmdvBHN0b3ACAWsCazIAAWkAAAEAA2V2dAIDAACAPwAAgD//////FgABAAEAAAAAAQAAAgEAAAFzAQIAAAAAAAA=",
	"events 3 time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":      "AgEOcmVjb2x1ZGUuZXZlbnQAARzGMQqAMBAF0fk/9nYexAt4GhFJESHB2puvbIoZ3mpfbemjPVZ13dENopzvcIHvyCIiNoSAnJE83YF/AA==",
	"references time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":   "AgABBMDBDQAQEAXRmb/VinDYhKoU6ZmeAHHX6fEiFuDyCvwBAA==",
	"references time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":  "AgAAAQJyawAAAAACAW4DdXJprAIBAAEDAAAAAW0BdgEAAAA=",
	"references time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":   "AgABBMDBDQAQEAXRmb/VinDYhKoU6ZmeAHHX6fEiFuDyCvwBAA==",
	"references time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":  "AgAAAQJyawAAAAACAW4DdXJprAIBAAEDAAAAAW0BdgEAAAA=",
	"references time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":   "AgAAAQJyawAAAAACAW4DdXJprAIBAAEDAAAAAW0BdgEAAAA=",
	"references time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":    "AgABBMDBDQAQEAXRmb/VinDYhKoU6ZmeAHHX6fEiFuDyCvwBAA==",
	"references time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":   "AgAAAQJyawAAAAACAW4DdXJprAIBAAEDAAAAAW0BdgEAAAA=",
	"references time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":    "AgABBMDBDQAQEAXRmb/VinDYhKoU6ZmeAHHX6fEiFuDyCvwBAA==",
	"binaries time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":     "AgABYmRKymYAAWbGPE5GBkZmBgaG4vzcVIWUxJJExlwGBsYcRgZOBsAA",
	"binaries time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":    "AgAAAQJiawAAAAAAAwFuCQEAAQMAAABzb21lIGRhdGEBbQAAAWwBAAkA",
	"binaries time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":     "AgABYmRKymYAAWbGPE5GBkZmBgaG4vzcVIWUxJJExlwGBsYcRgZOBsAA",
	"binaries time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":    "AgAAAQJiawAAAAAAAwFuCQEAAQMAAABzb21lIGRhdGEBbQAAAWwBAAkA",
	"binaries time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":     "AgAAAQJiawAAAAAAAwFuCQEAAQMAAABzb21lIGRhdGEBbQAAAWwBAAkA",
	"binaries time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":      "AgABYmRKymYAAWbGPE5GBkZmBgaG4vzcVIWUxJJExlwGBsYcRgZOBsAA",
	"binaries time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":     "AgAAAQJiawAAAAAAAwFuCQEAAQMAAABzb21lIGRhdGEBbQAAAWwBAAkA",
	"binaries time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":      "AgABYmRKymYAAWbGPE5GBkZmBgaG4vzcVIWUxJJExlwGBsYcRgZOBsAA",
	"tree time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":         "AgMOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24NcmVjb2x1ZGUuZW51bQAAAAF8j8ENglAQRN/Mx4QYG7AMKwBjAdSgBjygQIQQtVpLoAQPBKIcnNtmX3bfbOxLHbVd3UglsZ1VISsKq9RVdwTqAeuoPSbkfYcBYEgAgHSNEIBQaOoWTcSWJcsc6YSRDERyyKsb5idDsjISgM464PH8QiBKd3/efM/T/p2MTWbPGCEApId5vvgMAA==",
	"tree time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":        "AgMOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24NcmVjb2x1ZGUuZW51bQAAAAAMAgJnbwRzdG9wAQFrAAgCAk9uA09mZgIBawFsAXIAAQAAAXYAAAACAWEBQQACAANldnQBAgAAgD8AAABACgABAAEAAAAAAQABA3BvcwEBAACAPw0BAACAPwAAAEAAAAAAAAABAWIAAgABAQIAAAAEAQIDZW5tAQIAAAAAAACAPwUCAAEBAAAAAAFjAUMAAgEDcG9zAQIAAIA/AAAgQBkBAACAPwAAAEAAAAAAAAAAQAAAgD8AAAA/AANldnQBAQAAgD8IAAEAAQAAAAAAAQF4AgB5egA=",
	"tree time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":         "AgMOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24NcmVjb2x1ZGUuZW51bQAAAAFkjkGOglAQBeu9zyRkMnMSD4HGA3AGNeACBSKEqCtvpjf7BoGVi046nU5V/dnHJun6ppUqUjuvQ16WVqWTLgg0ANZOG0woht6GRzZOjL8IAQiFtums8f4/f7AGAGmPRSIDcijqsw0wQX6MBKCDtngCzYhXFuNqET6B7HtfNABT4aciRQgA6Wpud94DAA==",
	"tree time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":        "AgMOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24NcmVjb2x1ZGUuZW51bQAAAAAMAgJnbwRzdG9wAQFrAAgCAk9uA09mZgIBawFsAXIAAQAAAXYAAAACAWEBQQACAANldnQCAgAAgD8AAIA///8KAAEAAQAAAAABAAEDcG9zAgEAAIA/DQMAAIA/AAAAQAAAAAAAAAEBYgACAAEBAgAAAAQBAgNlbm0CAgAAAAAAAIA///8FAgABAQAAAAABYwFDAAIBA3BvcwICAACAPwAAwD///ygDAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAANldnQCAQAAgD8IAAEAAQAAAAAAAQF4AgB5egA=",
	"tree time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":         "AgMOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24NcmVjb2x1ZGUuZW51bQAAAAAMAgJnbwRzdG9wAQFrAAgCAk9uA09mZgIBawFsAXIAAQAAAXYAAAACAWEBQQACAANldnQAAgAAAAAAAPA/AAAAAAAAAEAKAAEAAQAAAAABAAEDcG9zAAEAAAAAAADwPxkAAAAAAAAA8D8AAAAAAAAAQAAAAAAAAAAAAAABAWIAAgEABAECAAAAAQIDZW5tAAIAAAAAAAAAAAAAAAAAAPA/BQIAAQEAAAAAAWMBQwACAQNwb3MAAgAAAAAAAPA/AAAAAAAABEAxAAAAAAAAAPA/AAAAAAAAAEAAAAAAAAAAAAAAAAAAAABAAAAAAAAA8D8AAAAAAADgPwADZXZ0AAEAAAAAAADwPwgAAQABAAAAAAABAXgCAHl6AA==",
	"tree time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":          "AgMOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24NcmVjb2x1ZGUuZW51bQAAAAFczk1Og3AQhvHnmT8mxOgB3HkTMB6AM6gBF7RACiFtVz16w0c33c3kN3nnfYv477Nx6gdtySOqLlVNE7YePCE4A+GPXwSpnicDbgVQviICiGnoR13k3YcDgP4SaACZkeruuM4sZy+LAPjnN7HF7A8+y4+nKMp9L7YmK+eIAOg5uFy5DwA=",
	"tree time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":         "AgMOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24NcmVjb2x1ZGUuZW51bQAAAAAMAgJnbwRzdG9wAQFrAAgCAk9uA09mZgIBawFsAXIAAQAAAXYAAAACAWEBQQACAANldnQCAgAAgD8AAIA///8KAAEAAQAAAAABAAEDcG9zAgEAAIA/DQIAAIA/AAAAQAAAAAAAAAEBYgACAAEBAgAAAAQBAgNlbm0CAgAAAAAAAIA///8FAgABAQAAAAABYwFDAAIBA3BvcwICAACAPwAAwD///ysCAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAAAAAANldnQCAQAAgD8IAAEAAQAAAAAAAQF4AgB5egA=",
	"tree time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":          "AgMOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24NcmVjb2x1ZGUuZW51bQAAAAFkjk2OgmAQRF/VxyRkMnOPuQVjPABnUAMuUCBCiLriZnqzz/DjykUnne7Kq/djH5uk65tWqkjtvA55WVqVTrog0ABYO20woRh6G8Zsmhi/EQIQCm3TWdP9NzAn+AcAaY+RDCRyKOqzDbBAvqYfgA7a4gW0ljyzGP9W3PgAss/9XcOiNyukCAEgXc3tzmsA",
	"mixed time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAZTQsUoDQRgE4G9370DFQsEX8QHk1tIqnb3gnYgmdySHWPpmvkoKHyClpUi4wK022WYHZuafYc5jfOqrzdgPIbxwEuNilRZdR1jXy+f39lEttW+jCOwaQD4TBPx+aeg3paLK10qP+ctzftvEtO4PUdsG+G5uykMf9xnwNUzIbf6fTaldLcV59K6poxBUqXsd/5KXE/qcOhDCA3FvCACnB+F+hFSOAFzku6PHAK5y2Q0/AwA=",
	"mixed time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":       "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AQIAAIA/AAAAQAoAAQABAAAAAAEAAQNwb3MBAgAAgD8AACBAGQEAAIA/AAAAQAAAAAAAAABAAACAPwAAAD8CA3JvdAECAAAAPwAAwD8ZAQAAgD8AALRCACCHQwAACEIAALRCACCHQwMDZW5tAQIAAAAAAACAPwUCAAEBAAQDZmx0AQIAAAAAAACAPwkBAACAvwAAwD8AAAEBYQAAAgQDZmx0AQEAAAAABQEAAIC/AQNwb3MBAwAAgD8AACBAAACAQCUBAACAPwAAAEAAAAAAAAAAQAAAgD8AAAA/AACgQAAAAAAAAIA/AAAA",
	"mixed time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAWyOTU6GQBBEX3d/JEZl7x1ceYLhBpzBRDBGYQgQ45JDsYebtYEBNWpl/jJVqX63qs/xMoyxE3mFK9WytbKuQfqsefmonsiw6n1UhSls2/0aQYDtsi4Op7cG9/sztwDh75uCL6n1cS/mKM6VRrH5bt5Os6ptdptkZ4oIF6vfxp/fuaYRawB3EHkETTEBuDkC0+KegO0b2P3hF3JR/Ivs+zr1OQA=",
	"mixed time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":       "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AgIAAIA/AACAP///CgABAAEAAAAAAQABA3BvcwICAACAPwAAwD///ygDAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAgNyb3QCAgAAAD8AAIA///8NAgBtAgADtBi0AgADtAMDZW5tAgIAAAAAAACAP///BQIAAQEABANmbHQCAgAAAAAAAIA///8NAgAAgL8AAMA/AAD//wAAAQFhAAACBANmbHQCAQAAAAALAgAAgL8AAIC///8BA3BvcwIDAACAPwAAwD//////KwMAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAAAAAAAAA=",
	"mixed time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AAIAAAAAAADwPwAAAAAAAABACgABAAEAAAAAAQABA3BvcwACAAAAAAAA8D8AAAAAAAAEQDEAAAAAAAAA8D8AAAAAAAAAQAAAAAAAAAAAAAAAAAAAAEAAAAAAAADwPwAAAAAAAOA/AgNyb3QAAgAAAAAAAOA/AAAAAAAA+D89AAAAAAAAAPA/AAAAAAAAAIBWQAAAAAAAAADkcEAAAAAAAAAAAEFAAAAAAAAAAIBWQAAAAAAAAADkcEAAAAMDZW5tAAIAAAAAAAAAAAAAAAAAAPA/BQIAAQEABANmbHQAAgAAAAAAAAAAAAAAAAAA8D8RAAAAAAAAAPC/AAAAAAAA+D8AAAEBYQAAAgQDZmx0AAEAAAAAAAAAAAkAAAAAAAAA8L8BA3BvcwADAAAAAAAA8D8AAAAAAAAEQAAAAAAAABBASQAAAAAAAADwPwAAAAAAAABAAAAAAAAAAAAAAAAAAAAAQAAAAAAAAPA/AAAAAAAA4D8AAAAAAAAUQAAAAAAAAAAAAAAAAAAA8D8AAAA=",
	"mixed time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":         "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAXSOQUrEQBBFX1WlIYoXcJeN5+gmHiBnEExENOmQBHHZO6/hIWY/c7QhHZpZzep313983pPqR6zWLc4iX1CrdpN1wwCyuPHzt3/HYf3PJgrJA+ERQYA9bI5raZrwLIUBODL/vdoS8wQeLr6Ap5bm7xXqtrzN+mnMIJC8U0SobPjebscHgXTed0DkDfQABMDl8hCzIgYpvNyVg/9QtoHrAA==",
	"mixed time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AgIAAIA/AACAP///CgABAAEAAAAAAQABA3BvcwICAACAPwAAwD///ysCAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAAAAAgNyb3QCAgAAAD8AAIA///8NAgBtAgADtBi0AgADtAMDZW5tAgIAAAAAAACAP///BQIAAQEABANmbHQCAgAAAAAAAIA///8NAgAAgL8AAMA/AAD//wAAAQFhAAACBANmbHQCAQAAAAALAgAAgL8AAIC///8BA3BvcwIDAACAPwAAwD//////MQIAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAA/wAAAAAAAAAAAAA=",
	"mixed time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":         "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAWyOUUqGUBBGz8woROV7SwhaxHUHriFII0qvqESPLsp33dmEXqPo/x/unWG+j8O5V32N2TjFXuQdblSrzqqmARny9u2rfiHH6s9JFeawP/dbBAH2YX0cf7ItuD/a2VuBcLlTAgBqQzyonNRCaRVbHpb9N6u79ohJca6IkFnzMf09F5r4WwB3EHkGTTUBuDsL8+qebO3X1v3pn29ZXvV1AOB7AA==",
	"mixed time1 pos1 euler1 float1 compress=false as time0 pos0 euler0 float0 compress=true":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAZTQsUoDQRgE4G9370DFQsEX8QHk1tIqnb3gnYgmdySHWPpmvkoKHyClpUi4wK022WYHZuafYc5jfOqrzdgPIbxwEuNilRZdR1jXy+f39lEttW+jCOwaQD4TBPx+aeg3paLK10qP+ctzftvEtO4PUdsG+G5uykMf9xnwNUzIbf6fTaldLcV59K6poxBUqXsd/5KXE/qcOhDCA3FvCACnB+F+hFSOAFzku6PHAK5y2Q0/AwA=",
	"mixed time1 pos1 euler1 float1 compress=false as time1 pos1 euler1 float1 compress=false":       "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AQIAAIA/AAAAQAoAAQABAAAAAAEAAQNwb3MBAgAAgD8AACBAGQEAAIA/AAAAQAAAAAAAAABAAACAPwAAAD8CA3JvdAECAAAAPwAAwD8ZAQAAgD8AALRCACCHQwAACEIAALRCACCHQwMDZW5tAQIAAAAAAACAPwUCAAEBAAQDZmx0AQIAAAAAAACAPwkBAACAvwAAwD8AAAEBYQAAAgQDZmx0AQEAAAAABQEAAIC/AQNwb3MBAwAAgD8AACBAAACAQCUBAACAPwAAAEAAAAAAAAAAQAAAgD8AAAA/AACgQAAAAAAAAIA/AAAA",
	"mixed time1 pos1 euler1 float1 compress=false as time2 pos2 euler2 float2 compress=true":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAWyOTU6GQBBEX3d/JEZl7x1ceYLhBpzBRDBGYQgQ45JDsYebtYEBNWpl/jJVqX63qs/xMoyxE3mFK9WytbKuQfqsefmonsiw6n1UhSls2/0aQYDtsi4Op7cG9/sztwDh75uCL6n1cS/mKM6VRrH5bt5Os6ptdptkZ4oIF6vfxp/fuaYRawB3EHkETTEBuDkC0+KegO0b2P3hF3JR/Ivs+zr1OQA=",
	"mixed time1 pos1 euler1 float1 compress=false as time2 pos3 euler2 float2 compress=false":       "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AgIAAIA/AACAP///CgABAAEAAAAAAQABA3BvcwICAACAPwAAwD///ygDAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAgNyb3QCAgAAAD8AAIA///8NAgBtAgADtBi0AgADtAMDZW5tAgIAAAAAAACAP///BQIAAQEABANmbHQCAgAAAAAAAIA///8NAgAAgL8AAMA/AAD//wAAAQFhAAACBANmbHQCAQAAAAALAgAAgL8AAIC///8BA3BvcwIDAACAPwAAwD//////KwMAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAAAAAAAAA=",
	"mixed time1 pos1 euler1 float1 compress=true as time0 pos0 euler0 float0 compress=false":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AAIAAAAAAADwPwAAAAAAAABACgABAAEAAAAAAQABA3BvcwACAAAAAAAA8D8AAAAAAAAEQDEAAAAAAAAA8D8AAAAAAAAAQAAAAAAAAAAAAAAAAAAAAEAAAAAAAADwPwAAAAAAAOA/AgNyb3QAAgAAAAAAAOA/AAAAAAAA+D89AAAAAAAAAPA/AAAAAAAAAIBWQAAAAAAAAADkcEAAAAAAAAAAAEFAAAAAAAAAAIBWQAAAAAAAAADkcEAAAAMDZW5tAAIAAAAAAAAAAAAAAAAAAPA/BQIAAQEABANmbHQAAgAAAAAAAAAAAAAAAAAA8D8RAAAAAAAAAPC/AAAAAAAA+D8AAAEBYQAAAgQDZmx0AAEAAAAAAAAAAAkAAAAAAAAA8L8BA3BvcwADAAAAAAAA8D8AAAAAAAAEQAAAAAAAABBASQAAAAAAAADwPwAAAAAAAABAAAAAAAAAAAAAAAAAAAAAQAAAAAAAAPA/AAAAAAAA4D8AAAAAAAAUQAAAAAAAAAAAAAAAAAAA8D8AAAA=",
	"mixed time1 pos1 euler1 float1 compress=true as time1 pos1 euler1 float1 compress=true":         "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAXSOQUrEQBBFX1WlIYoXcJeN5+gmHiBnEExENOmQBHHZO6/hIWY/c7QhHZpZzep313983pPqR6zWLc4iX1CrdpN1wwCyuPHzt3/HYf3PJgrJA+ERQYA9bI5raZrwLIUBODL/vdoS8wQeLr6Ap5bm7xXqtrzN+mnMIJC8U0SobPjebscHgXTed0DkDfQABMDl8hCzIgYpvNyVg/9QtoHrAA==",
	"mixed time1 pos1 euler1 float1 compress=true as time2 pos2 euler2 float2 compress=false":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AgIAAIA/AACAP///CgABAAEAAAAAAQABA3BvcwICAACAPwAAwD///ysCAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAAAAAgNyb3QCAgAAAD8AAIA///8NAgBtAgADtBi0AgADtAMDZW5tAgIAAAAAAACAP///BQIAAQEABANmbHQCAgAAAAAAAIA///8NAgAAgL8AAMA/AAD//wAAAQFhAAACBANmbHQCAQAAAAALAgAAgL8AAIC///8BA3BvcwIDAACAPwAAwD//////MQIAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAA/wAAAAAAAAAAAAA=",
	"mixed time1 pos1 euler1 float1 compress=true as time2 pos3 euler2 float2 compress=true":         "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAWyOUUqGUBBGz8woROV7SwhaxHUHriFII0qvqESPLsp33dmEXqPo/x/unWG+j8O5V32N2TjFXuQdblSrzqqmARny9u2rfiHH6s9JFeawP/dbBAH2YX0cf7ItuD/a2VuBcLlTAgBqQzyonNRCaRVbHpb9N6u79ohJca6IkFnzMf09F5r4WwB3EHkGTTUBuDsL8+qebO3X1v3pn29ZXvV1AOB7AA==",
	"mixed time2 pos2 euler2 float2 compress=false as time0 pos0 euler0 float0 compress=true":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAZTQsUoDQRgE4G9370DFQsEX8QHk1tIqnb3gnYgmdySHWPpmvkoKHyClpUi4wK022WYHZuafYc5jfOqrzdgPIbxwEuNilRZdR1jXy+f39lEttW+jCOwaQD4TBPx+aeg3paLK10qP+ctzftvEtO4PUdsG+G5uykMf9xnwNUzIbf6fTaldLcV59K6poxBUqXsd/5KXE/qcOhDCA3FvCACnB+F+hFSOAFzku6PHAK5y2Q0/AwA=",
	"mixed time2 pos2 euler2 float2 compress=false as time1 pos1 euler1 float1 compress=false":       "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AQIAAIA/AAAAQAoAAQABAAAAAAEAAQNwb3MBAgAAgD8AACBAGQEAAIA/AAAAQAAAAAAAAABAAACAPwAAAD8CA3JvdAECAAAAPwAAwD8ZAQAAgD8AALRCACCHQwAACEIAALRCACCHQwMDZW5tAQIAAAAAAACAPwUCAAEBAAQDZmx0AQIAAAAAAACAPwkBAACAvwAAwD8AAAEBYQAAAgQDZmx0AQEAAAAABQEAAIC/AQNwb3MBAwAAgD8AACBAAACAQCUBAACAPwAAAEAAAAAAAAAAQAAAgD8AAAA/AACgQAAAAAAAAIA/AAAA",
	"mixed time2 pos2 euler2 float2 compress=false as time2 pos2 euler2 float2 compress=true":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAWyOTU6GQBBEX3d/JEZl7x1ceYLhBpzBRDBGYQgQ45JDsYebtYEBNWpl/jJVqX63qs/xMoyxE3mFK9WytbKuQfqsefmonsiw6n1UhSls2/0aQYDtsi4Op7cG9/sztwDh75uCL6n1cS/mKM6VRrH5bt5Os6ptdptkZ4oIF6vfxp/fuaYRawB3EHkETTEBuDkC0+KegO0b2P3hF3JR/Ivs+zr1OQA=",
	"mixed time2 pos2 euler2 float2 compress=false as time2 pos3 euler2 float2 compress=false":       "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AgIAAIA/AACAP///CgABAAEAAAAAAQABA3BvcwICAACAPwAAwD///ygDAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAgNyb3QCAgAAAD8AAIA///8NAgBtAgADtBi0AgADtAMDZW5tAgIAAAAAAACAP///BQIAAQEABANmbHQCAgAAAAAAAIA///8NAgAAgL8AAMA/AAD//wAAAQFhAAACBANmbHQCAQAAAAALAgAAgL8AAIC///8BA3BvcwIDAACAPwAAwD//////KwMAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAAAAAAAAA=",
	"mixed time2 pos2 euler2 float2 compress=true as time0 pos0 euler0 float0 compress=false":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AAIAAAAAAADwPwAAAAAAAABACgABAAEAAAAAAQABA3BvcwACAAAAAAAA8D8AAAAAAAAEQDEAAAAAAAAA8D8AAAAAAAAAQAAAAAAAAAAAAAAAAAAAAEAAAAAAAADwPwAAAAAAAOA/AgNyb3QAAgAAAAAAAOA/AAAAAAAA+D89AAAAAAAAAPA/AAAAAAAAAIBWQAAAAAAAAADkcEAAAAAAAAAAAEFAAAAAAAAAAIBWQAAAAAAAAADkcEAAAAMDZW5tAAIAAAAAAAAAAAAAAAAAAPA/BQIAAQEABANmbHQAAgAAAAAAAAAAAAAAAAAA8D8RAAAAAAAAAPC/AAAAAAAA+D8AAAEBYQAAAgQDZmx0AAEAAAAAAAAAAAkAAAAAAAAA8L8BA3BvcwADAAAAAAAA8D8AAAAAAAAEQAAAAAAAABBASQAAAAAAAADwPwAAAAAAAABAAAAAAAAAAAAAAAAAAAAAQAAAAAAAAPA/AAAAAAAA4D8AAAAAAAAUQAAAAAAAAAAAAAAAAAAA8D8AAAA=",
	"mixed time2 pos2 euler2 float2 compress=true as time1 pos1 euler1 float1 compress=true":         "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAXSOQUrEQBBFX1WlIYoXcJeN5+gmHiBnEExENOmQBHHZO6/hIWY/c7QhHZpZzep313983pPqR6zWLc4iX1CrdpN1wwCyuPHzt3/HYf3PJgrJA+ERQYA9bI5raZrwLIUBODL/vdoS8wQeLr6Ap5bm7xXqtrzN+mnMIJC8U0SobPjebscHgXTed0DkDfQABMDl8hCzIgYpvNyVg/9QtoHrAA==",
	"mixed time2 pos2 euler2 float2 compress=true as time2 pos2 euler2 float2 compress=false":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AgIAAIA/AACAP///CgABAAEAAAAAAQABA3BvcwICAACAPwAAwD///ysCAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAAAAAgNyb3QCAgAAAD8AAIA///8NAgBtAgADtBi0AgADtAMDZW5tAgIAAAAAAACAP///BQIAAQEABANmbHQCAgAAAAAAAIA///8NAgAAgL8AAMA/AAD//wAAAQFhAAACBANmbHQCAQAAAAALAgAAgL8AAIC///8BA3BvcwIDAACAPwAAwD//////MQIAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAA/wAAAAAAAAAAAAA=",
	"mixed time2 pos2 euler2 float2 compress=true as time2 pos3 euler2 float2 compress=true":         "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAWyOUUqGUBBGz8woROV7SwhaxHUHriFII0qvqESPLsp33dmEXqPo/x/unWG+j8O5V32N2TjFXuQdblSrzqqmARny9u2rfiHH6s9JFeawP/dbBAH2YX0cf7ItuD/a2VuBcLlTAgBqQzyonNRCaRVbHpb9N6u79ohJca6IkFnzMf09F5r4WwB3EHkGTTUBuDsL8+qebO3X1v3pn29ZXvV1AOB7AA==",
	"mixed time2 pos3 euler2 float2 compress=false as time0 pos0 euler0 float0 compress=true":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAZTQsUoDQRgE4G9370DFQsEX8QHk1tIqnb3gnYgmdySHWPpmvkoKHyClpUi4wK022WYHZuafYc5jfOqrzdgPIbxwEuNilRZdR1jXy+f39lEttW+jCOwaQD4TBPx+aeg3paLK10qP+ctzftvEtO4PUdsG+G5uykMf9xnwNUzIbf6fTaldLcV59K6poxBUqXsd/5KXE/qcOhDCA3FvCACnB+F+hFSOAFzku6PHAK5y2Q0/AwA=",
	"mixed time2 pos3 euler2 float2 compress=false as time1 pos1 euler1 float1 compress=false":       "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AQIAAIA/AAAAQAoAAQABAAAAAAEAAQNwb3MBAgAAgD8AACBAGQEAAIA/AAAAQAAAAAAAAABAAACAPwAAAD8CA3JvdAECAAAAPwAAwD8ZAQAAgD8AALRCACCHQwAACEIAALRCACCHQwMDZW5tAQIAAAAAAACAPwUCAAEBAAQDZmx0AQIAAAAAAACAPwkBAACAvwAAwD8AAAEBYQAAAgQDZmx0AQEAAAAABQEAAIC/AQNwb3MBAwAAgD8AACBAAACAQCUBAACAPwAAAEAAAAAAAAAAQAAAgD8AAAA/AACgQAAAAAAAAIA/AAAA",
	"mixed time2 pos3 euler2 float2 compress=false as time2 pos2 euler2 float2 compress=true":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAWyOTU6GQBBEX3d/JEZl7x1ceYLhBpzBRDBGYQgQ45JDsYebtYEBNWpl/jJVqX63qs/xMoyxE3mFK9WytbKuQfqsefmonsiw6n1UhSls2/0aQYDtsi4Op7cG9/sztwDh75uCL6n1cS/mKM6VRrH5bt5Os6ptdptkZ4oIF6vfxp/fuaYRawB3EHkETTEBuDkC0+KegO0b2P3hF3JR/Ivs+zr1OQA=",
	"mixed time2 pos3 euler2 float2 compress=false as time2 pos3 euler2 float2 compress=false":       "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AgIAAIA/AACAP///CgABAAEAAAAAAQABA3BvcwICAACAPwAAwD///ygDAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAgNyb3QCAgAAAD8AAIA///8NAgBtAgADtBi0AgADtAMDZW5tAgIAAAAAAACAP///BQIAAQEABANmbHQCAgAAAAAAAIA///8NAgAAgL8AAMA/AAD//wAAAQFhAAACBANmbHQCAQAAAAALAgAAgL8AAIC///8BA3BvcwIDAACAPwAAwD//////KwMAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAAAAAAAAA=",
	"mixed time2 pos3 euler2 float2 compress=true as time0 pos0 euler0 float0 compress=false":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AAIAAAAAAADwPwAAAAAAAABACgABAAEAAAAAAQABA3BvcwACAAAAAAAA8D8AAAAAAAAEQDEAAAAAAAAA8D8AAAAAAAAAQAAAAAAAAAAAAAAAAAAAAEAAAAAAAADwPwAAAAAAAOA/AgNyb3QAAgAAAAAAAOA/AAAAAAAA+D89AAAAAAAAAPA/AAAAAAAAAIBWQAAAAAAAAADkcEAAAAAAAAAAAEFAAAAAAAAAAIBWQAAAAAAAAADkcEAAAAMDZW5tAAIAAAAAAAAAAAAAAAAAAPA/BQIAAQEABANmbHQAAgAAAAAAAAAAAAAAAAAA8D8RAAAAAAAAAPC/AAAAAAAA+D8AAAEBYQAAAgQDZmx0AAEAAAAAAAAAAAkAAAAAAAAA8L8BA3BvcwADAAAAAAAA8D8AAAAAAAAEQAAAAAAAABBASQAAAAAAAADwPwAAAAAAAABAAAAAAAAAAAAAAAAAAAAAQAAAAAAAAPA/AAAAAAAA4D8AAAAAAAAUQAAAAAAAAAAAAAAAAAAA8D8AAAA=",
	"mixed time2 pos3 euler2 float2 compress=true as time1 pos1 euler1 float1 compress=true":         "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAXSOQUrEQBBFX1WlIYoXcJeN5+gmHiBnEExENOmQBHHZO6/hIWY/c7QhHZpZzep313983pPqR6zWLc4iX1CrdpN1wwCyuPHzt3/HYf3PJgrJA+ERQYA9bI5raZrwLIUBODL/vdoS8wQeLr6Ap5bm7xXqtrzN+mnMIJC8U0SobPjebscHgXTed0DkDfQABMDl8hCzIgYpvNyVg/9QtoHrAA==",
	"mixed time2 pos3 euler2 float2 compress=true as time2 pos2 euler2 float2 compress=false":        "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAAwCAmdvBHN0b3ABAWsAAAgCAk9uA09mZgAAAXIFbWl4ZWQABQADZXZ0AgIAAIA/AACAP///CgABAAEAAAAAAQABA3BvcwICAACAPwAAwD///ysCAACAPwAAgL8AAAA/AACAPwAAgL8AAAA/AACAPwAAAEAAAAAAAAAAAAAAAgNyb3QCAgAAAD8AAIA///8NAgBtAgADtBi0AgADtAMDZW5tAgIAAAAAAACAP///BQIAAQEABANmbHQCAgAAAAAAAIA///8NAgAAgL8AAMA/AAD//wAAAQFhAAACBANmbHQCAQAAAAALAgAAgL8AAIC///8BA3BvcwIDAACAPwAAwD//////MQIAAIA/AACAvwAAAD8AAEBAAACAvwAAAD8AAIA/AAAAQAAAAAAA/wAA/wAAAAAAAAAAAAA=",
	"mixed time2 pos3 euler2 float2 compress=true as time2 pos3 euler2 float2 compress=true":         "AgUOcmVjb2x1ZGUuZXZlbnQRcmVjb2x1ZGUucG9zaXRpb24OcmVjb2x1ZGUuZXVsZXINcmVjb2x1ZGUuZW51bQ5yZWNvbHVkZS5mbG9hdAAAAAAAAWyOUUqGUBBGz8woROV7SwhaxHUHriFII0qvqESPLsp33dmEXqPo/x/unWG+j8O5V32N2TjFXuQdblSrzqqmARny9u2rfiHH6s9JFeawP/dbBAH2YX0cf7ItuD/a2VuBcLlTAgBqQzyonNRCaRVbHpb9N6u79ohJca6IkFnzMf09F5r4WwB3EHkGTTUBuDsL8+qebO3X1v3pn29ZXvV1AOB7AA==",
	"long texts time0 pos0 euler0 float0 compress=false as time0 pos0 euler0 float0 compress=true":   "AgABYmhirBhwcGIQuIE6gIGBgZExqYeRgUHeLrZm9q6bP8TNQksmb7r4gV/PN6d71ckX7GquKc2LDj74L2cbUz1r543vYqYhxZM2XnjPp+uT3bXyxHM2VZfkpoUH7v+TtYmumrnj+jdRk+CiiRvOv+PV8c7qXHH8GauKc1Ljgv33/spYR1XO2H7tq4hxUOGE9efe8mh7ZXYsP/aURdkpsWH+vrt/pK0iK6Zvu8oAGAA=",
	"long texts time0 pos0 euler0 float0 compress=false as time1 pos1 euler1 float1 compress=false":  "AgAAAIIBeHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eMgBeHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHgAAAABAWKMAQAAHz5dfJu62fgXNlV0k7LR8A8uTWyLqsnoByZFZIOiweD/Hj1ce5q52PcWNVRzkrHQ7w4tTGuKqcjnBiVEY4KhwN/+HTxbepm41/YVNFNykbDP7g0sS2qJqMfmBSRDYoGgv979HDtaeZi31vUUM1JxkK/O7QwrSmmIp8blBCNCYYCfvt38GzpZeJe21QA=",
	"long texts time0 pos0 euler0 float0 compress=false as time2 pos2 euler2 float2 compress=true":   "AgABYmhirBhwcGIQuIE6gIGBgZExqYeRgUHeLrZm9q6bP8TNQksmb7r4gV/PN6d71ckX7GquKc2LDj74L2cbUz1r543vYqYhxZM2XnjPp+uT3bXyxHM2VZfkpoUH7v+TtYmumrnj+jdRk+CiiRvOv+PV8c7qXHH8GauKc1Ljgv33/spYR1XO2H7tq4hxUOGE9efe8mh7ZXYsP/aURdkpsWH+vrt/pK0iK6Zvu8oAGAA=",
	"long texts time0 pos0 euler0 float0 compress=false as time2 pos3 euler2 float2 compress=false":  "AgAAAIIBeHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eMgBeHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHgAAAABAWKMAQAAHz5dfJu62fgXNlV0k7LR8A8uTWyLqsnoByZFZIOiweD/Hj1ce5q52PcWNVRzkrHQ7w4tTGuKqcjnBiVEY4KhwN/+HTxbepm41/YVNFNykbDP7g0sS2qJqMfmBSRDYoGgv979HDtaeZi31vUUM1JxkK/O7QwrSmmIp8blBCNCYYCfvt38GzpZeJe21QA=",
	"long texts time0 pos0 euler0 float0 compress=true as time0 pos0 euler0 float0 compress=false":   "AgAAAIIBeHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eMgBeHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHgAAAABAWKMAQAAHz5dfJu62fgXNlV0k7LR8A8uTWyLqsnoByZFZIOiweD/Hj1ce5q52PcWNVRzkrHQ7w4tTGuKqcjnBiVEY4KhwN/+HTxbepm41/YVNFNykbDP7g0sS2qJqMfmBSRDYoGgv979HDtaeZi31vUUM1JxkK/O7QwrSmmIp8blBCNCYYCfvt38GzpZeJe21QA=",
	"long texts time0 pos0 euler0 float0 compress=true as time1 pos1 euler1 float1 compress=true":    "AgABYmhirBhwcGIQuIE6gIGBgZExqYeRgUHeLrZm9q6bP8TNQksmb7r4gV/PN6d71ckX7GquKc2LDj74L2cbUz1r543vYqYhxZM2XnjPp+uT3bXyxHM2VZfkpoUH7v+TtYmumrnj+jdRk+CiiRvOv+PV8c7qXHH8GauKc1Ljgv33/spYR1XO2H7tq4hxUOGE9efe8mh7ZXYsP/aURdkpsWH+vrt/pK0iK6Zvu8oAGAA=",
	"long texts time0 pos0 euler0 float0 compress=true as time2 pos2 euler2 float2 compress=false":   "AgAAAIIBeHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eMgBeHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHh4eHgAAAABAWKMAQAAHz5dfJu62fgXNlV0k7LR8A8uTWyLqsnoByZFZIOiweD/Hj1ce5q52PcWNVRzkrHQ7w4tTGuKqcjnBiVEY4KhwN/+HTxbepm41/YVNFNykbDP7g0sS2qJqMfmBSRDYoGgv979HDtaeZi31vUUM1JxkK/O7QwrSmmIp8blBCNCYYCfvt38GzpZeJe21QA=",
	"long texts time0 pos0 euler0 float0 compress=true as time2 pos3 euler2 float2 compress=true":    "AgABYmhirBhwcGIQuIE6gIGBgZExqYeRgUHeLrZm9q6bP8TNQksmb7r4gV/PN6d71ckX7GquKc2LDj74L2cbUz1r543vYqYhxZM2XnjPp+uT3bXyxHM2VZfkpoUH7v+TtYmumrnj+jdRk+CiiRvOv+PV8c7qXHH8GauKc1Ljgv33/spYR1XO2H7tq4hxUOGE9efe8mh7ZXYsP/aURdkpsWH+vrt/pK0iK6Zvu8oAGAA=",
}
