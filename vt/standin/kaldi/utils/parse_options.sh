# --some-name VALUE sets the variable some_name, which must exist
while true; do
  [ -z "${1:-}" ] && break
  case "$1" in
    --*)
      vt_name=$(echo "$1" | sed 's/^--//; s/-/_/g')
      eval '[ -z "${'$vt_name'+x}" ]' && echo "$0: invalid option $1" 1>&2 && exit 1
      eval 'vt_old="$'$vt_name'"'
      if [ "$vt_old" = true ] || [ "$vt_old" = false ]; then
        [ "$2" = true ] || [ "$2" = false ] || { echo "$0: expected true or false for $1" 1>&2; exit 1; }
      fi
      eval $vt_name=\"\$2\"
      shift 2
      ;;
    *) break ;;
  esac
done
true
